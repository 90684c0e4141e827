"""registration of contracts"""


def registry():
    lst = []

    def contract(*functions, **kw):
        def deco(fn):
            lst.append(dict(kw, name=kw.get('name', fn.__name__), fn=fn, functions=list(functions), doc=fn.__doc__ or ''))
            return fn
        return deco
    return lst, contract


def need(cond, msg):
    """the contract cannot be stated for code of this shape (never a verdict)"""
    if not cond:
        from dv.core import Unsupported
        raise Unsupported('contract: ' + msg)
