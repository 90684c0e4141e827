"""Library contracts: what the verifier knows about Python builtins, numpy, scipy, obspy, ... (trusted base)."""
import builtins as _b
import collections as _collections
import itertools as _itertools
import math as _math
import types

import numpy as _np
import z3

from dv import core
from dv.core import (SArr, SBool, SCplx, SNum, SPhase, SStr, SUTC, Sym, Atom, DDefaultDict, DDict, DList, Gap,
                     Masked, OpaqueObj, POISON, Unsupported, PathEnd, AND, NOT, OR, IMPLIES, broadcast, edivide, freeze, has_gap,
                     holds, int_t, is_sym, isnumber, ite, lift, newborn, parts_of, real_t, result_dtype, sfloor, simp, sround,
                     strunc, truth, uapp, veq, zb)


def E():
    return core.E


# ================================================================ language support
def deep_sym(x, depth=4):
    """does a value contain something symbolic"""
    if isinstance(x, (Sym, DList, DDict, Gap)) or x is POISON:
        return True
    if depth and isinstance(x, (list, tuple, set)):
        return any(deep_sym(y, depth - 1) for y in x)
    if depth and isinstance(x, dict):
        return any(deep_sym(y, depth - 1) for y in x.values()) or any(deep_sym(y, 1) for y in x.keys())
    return False


def has_symbol(x, depth=4):
    """like deep_sym, but lists and dicts without symbolic content count as native"""
    if isinstance(x, DList):
        return any(has_symbol(p, depth - 1) for p in x.parts)
    if isinstance(x, DDict):
        return any(has_symbol(p, depth - 1) for p in x.ks + x.vs)
    if isinstance(x, (Sym, Gap)) or x is POISON:
        return True
    if depth and isinstance(x, (list, tuple, set)):
        return any(has_symbol(y, depth - 1) for y in x)
    if depth and isinstance(x, dict):
        return any(has_symbol(y, depth - 1) for y in x.values())
    return False


def native(x):
    """native copy of a value without symbolic content"""
    if isinstance(x, DList):
        return [native(p) for p in x.parts]
    if isinstance(x, DDict):
        return {native(k): native(v) for k, v in zip(x.ks, x.vs)}
    if isinstance(x, tuple):
        return tuple(native(p) for p in x)
    if type(x) is list:
        return [native(p) for p in x]
    if type(x) is dict:
        return {k: native(v) for k, v in x.items()}
    return x


class DSet(object):
    def __init__(self, it=()):
        newborn(self)
        self.xs = []
        self.gaps = []
        for x in it:
            self.add_raw(x)

    def add_gap(self, g):
        # the elements of the gap that are none of the others
        def fresh():
            x = g.fresh()
            for y in self.xs:
                if y is x:
                    raise core.PathEnd()
                E().assume(z3.Not(core.zb(core.ueq(y, x))))
            return x
        d = Gap(g.base + '.set', fresh, parent=g)
        E().assume(d.n.t <= g.n.t)
        self.gaps.append(d)
        return d

    def nogap(self):
        if self.gaps:
            raise Unsupported('set of unknown elements')

    def add_raw(self, x):
        for y in self.xs:
            if y is x or truth(core.ueq(y, x)):
                return
        self.xs.append(x)

    def add(self, x):
        if E().gctx and (self._birth < E().gctx[-1]['start']):
            E().mut(self, 'add', x)
        self.add_raw(x)

    def update(self, it):
        for x in it:
            self.add(x)

    def discard(self, x):
        self.nogap()
        self.xs = [y for y in self.xs if not (y is x or truth(core.ueq(y, x)))]

    def pop(self):
        E().mut(self, 'pop')
        if len(self.xs) > 1:
            raise Unsupported('pop from a set of several values')
        if self.gaps:
            if not E().entails(core.int_t(self.length()) == 1):
                raise Unsupported('pop from a set of several values')
            if not self.xs:
                # the only element is in one of the gaps
                g = self.gaps[E().choose(len(self.gaps), 'set')]
                E().assume(g.n.t >= 1)
                self.gaps = []
                return g.fresh()
            self.gaps = []
        if not self.xs:
            raise KeyError('pop from an empty set')
        return self.xs.pop()

    def __len__(self):
        self.nogap()
        return len(self.xs)

    def length(self):
        n = len(self.xs)
        if self.gaps:
            # different gaps may share values: at least as many as the fullest one, at most all together
            k = E().int('n_distinct', 0)
            for g in self.gaps:
                E().assume(k.t >= g.n.t)
            E().assume(k.t <= z3.Sum([g.n.t for g in self.gaps]))
            for a in self.lens:
                E().assume(a.t == k.t)
            self.lens.append(k)
            return n + k
        return n

    @property
    def lens(self):
        return self.__dict__.setdefault('lens_', [])

    def __bool__(self):
        if self.gaps and not self.xs:
            return _b.bool(self.length() > 0)
        return bool(self.xs)

    def __contains__(self, x):
        r = any(y is x or truth(core.ueq(y, x)) for y in self.xs)
        if not r:
            self.nogap()
        return r

    def __parts__(self):
        # the order of a set is unspecified; contracts must not depend on it
        return list(self.gaps) + list(self.xs)

    def __iter__(self):
        self.nogap()
        return iter(list(self.xs))

    def __sub__(self, o):
        return DSet([x for x in self.xs if x not in o])

    def __or__(self, o):
        return DSet(list(self.xs) + list(o))

    def __and__(self, o):
        return DSet([x for x in self.xs if x in o])

    def __eq__(self, o):
        return len(self) == len(o) and all(x in o for x in self.xs)
    __hash__ = None


class DGen(object):
    """generator expression"""

    def __init__(self, site, it, cond, elt):
        self.site, self.it, self.cond, self.elt = site, it, cond, elt

    def __iter__(self):
        for x in DV.loop(self.site, self.it):
            if self.cond is None or self.cond(x):
                yield self.elt(x)

    def aslist(self):
        return DV.comp(self.site, 'list', self.it, self.cond, self.elt)


def as_of_now(f):
    """function with the present values of its variables; refuses to run after arrays among them were modified"""
    cells = [c.cell_contents for c in (f.__closure__ or ())]
    g = types.FunctionType(f.__code__, f.__globals__, f.__name__, f.__defaults__,
                           tuple(types.CellType(v) for v in cells))
    arrays = []
    for v in cells:
        for x in ([v] if isinstance(v, SArr) else list(v.parts) if isinstance(v, DList) else []):
            if isinstance(x, SArr):
                arrays.append((x.buf, x.buf.version, x.buf.fn))

    def run(i):
        if any(b.version != n or b.fn is not h for b, n, h in arrays):
            raise Unsupported('arrays of a comprehension changed')
        return g(i)
    return run


class LoopState(object):
    dirty = after = False

    def __init__(self):
        self.values = {}


class _DV(object):
    POISON = POISON
    STAR = object()

    def loop(self, site, it, key=None, loc=None):
        e = E()
        st = LoopState()
        e.loops[site] = st
        spec = e.for_specs.get(key)
        if spec is not None:
            # Hoare rule of the contract: an arbitrary iteration from a state with the invariant, or the state behind
            for x in spec(loc, it, st):
                e.gapcount += 1
                st.dirty = st.after = True
                e.loops[site] = st
                yield x
            st.after = True
            e.gapcount += 1
            e.loops[site] = st
            return
        if isinstance(it, DGen):
            it = iter(it)
        if isinstance(it, (str, tuple, bytes)) or type(it) in (list, dict, set, range):
            for x in it:
                e.loops[site] = st
                yield x
                st.dirty = st.after = False
            e.loops[site] = st
            return
        if not hasattr(it, '__parts__'):
            g = iter(it)
            while True:
                c = e.gapcount
                try:
                    x = next(g)
                except StopIteration:
                    if e.gapcount != c:
                        st.after = True
                    e.loops[site] = st
                    return
                if e.gapcount != c:
                    st.dirty = st.after = True
                e.loops[site] = st
                yield x
                st.dirty = st.after = False
        for p in list(it.__parts__()):
            if isinstance(p, Gap):
                isg, reg = core.gap_choice(site)
                core.apply_effects(reg)
                e.gapcount += 1
                st.dirty = st.after = True
                e.witnesses = []
                if isg:
                    ctx = core.generic_context(reg, p)
                    e.gctx.append(ctx)
                    try:
                        x = p.fresh()
                        ctx['item'] = x
                        e.loops[site] = st
                        yield x
                        e.loops[site] = st
                        # the iteration has ended normally
                        if p.check:
                            p.check(x)
                        for h in getattr(e, 'iter_end', []):
                            h(site, p, x)
                    finally:
                        if ctx in e.gctx:
                            e.gctx.remove(ctx)
                    raise PathEnd()
                e.loops[site] = st
            else:
                e.loops[site] = st
                yield p
                st.dirty = st.after = False
        e.loops[site] = st

    def loopvar(self, site, name):
        st = E().loops.get(site)
        return st.values.get(name, POISON) if st is not None else POISON

    def poisoned(self, site):
        st = E().loops.get(site)
        return bool(st and st.dirty)

    def poisoned_after(self, site):
        st = E().loops.get(site)
        return bool(st and st.after)

    def while_enter(self, key, loc, names):
        spec = E().while_specs.get(key)
        if spec is None:
            return None
        return spec.enter(loc, names)

    def while_back(self, key, w, loc):
        if w is None:
            E().check_time()
            return
        E().while_specs[key].back(w, loc)
        raise PathEnd()

    def comp(self, site, kind, it, cond, elt):
        if kind == 'gen':
            return DGen(site, it, cond, elt)
        if kind == 'dict':
            d = DDict()
            for k, v in self.comp(site, 'list', it, cond, elt):
                d[k] = v
            return d
        if kind == 'set':
            return b_set(DGen(site, it, cond, elt))
        out = DList()
        e = E()
        if isinstance(it, DGen):
            it = it.aslist() if not isinstance(it, list) else it
        if not hasattr(it, '__parts__'):
            for x in iter(it):
                if cond is None or cond(x):
                    self._add(out, kind, elt(x))
            return out
        for p in list(it.__parts__()):
            if isinstance(p, Gap):
                isg, reg = core.gap_choice(site)
                core.apply_effects(reg)
                e.gapcount += 1
                if isg:
                    ctx = core.generic_context(reg, p)
                    e.gctx.append(ctx)
                    try:
                        x = p.fresh()
                        if cond is None or cond(x):
                            v = elt(x)
                            reg.setdefault('images', set()).add('same' if v is x else 'other')
                        else:
                            reg['filtered'] = True
                        if p.check:
                            p.check(x)
                    finally:
                        if ctx in e.gctx:
                            e.gctx.remove(ctx)
                    raise PathEnd()
                images = reg.get('images')
                if not images:
                    continue
                if kind == 'flat':
                    raise Unsupported('nested comprehension over unknown elements')
                if images == {'same'}:
                    def fresh(p=p):
                        x = p.fresh()
                        if cond is not None and not cond(x):
                            raise PathEnd()
                        return x
                else:
                    cells = [(f, c.cell_contents) for f in (cond, elt) if f is not None
                             for c in (f.__closure__ or ())]

                    def fresh(p=p, cells=cells):
                        now = [c.cell_contents for f in (cond, elt) if f is not None
                               for c in (f.__closure__ or ())]
                        if any(a[1] is not b for a, b in zip(cells, now)):
                            raise Unsupported('variables of a comprehension changed')
                        x = p.fresh()
                        if cond is not None and not cond(x):
                            raise PathEnd()
                        return elt(x)
                g = p.derived('comp', fresh, filtered=bool(reg.get('filtered')))
                g.image_of = p
                for q, x in list(e.witnesses):
                    # an element of the gap that passes the condition
                    if q is p and cond is not None and core.holds(cond(x)):
                        e.assume(g.n.t >= 1)
                if hasattr(p, 'interval') and not reg.get('filtered'):
                    g.interval = p.interval
                    g.at_index = lambda i, p=p, f=as_of_now(elt): f(getattr(p, 'at_index', lambda i: i)(i))
                out.parts.append(g)
            else:
                if cond is None or cond(p):
                    self._add(out, kind, elt(p))
        return out

    @staticmethod
    def _add(out, kind, v):
        if kind == 'flat':
            out.parts.extend(parts_of(v))
        else:
            out.parts.append(v)

    def unpack(self, v, n):
        if isinstance(v, tuple):
            return v
        return tuple(v)

    def contains(self, container, item):
        h = getattr(E(), 'contains_hook', None)
        if h is not None and isinstance(container, SStr):
            r = h(container, item)
            if r is not None:
                return r
        if isinstance(container, str):
            if isinstance(item, SStr):
                n = item.length()
                if n == 1:
                    return OR(*[item == c for c in sorted(set(container))])
                raise Unsupported('substring test')
            return item in container
        if isinstance(container, (tuple, list)) and not isinstance(container, DList):
            if not deep_sym(container) and not deep_sym(item):
                return item in container
            for x in container:
                if x is item:
                    return True
            rs = [core.ueq(x, item) for x in container]
            return OR(*[SBool(zb(r)) for r in rs]) if rs else False
        if isinstance(container, dict) and not isinstance(container, DDict):
            if isinstance(item, Sym):
                return OR(*[SBool(zb(core.ueq(x, item))) for x in container])
            return item in container
        if isinstance(container, range) and isinstance(item, SNum):
            return OR(*[item == x for x in container])
        if isinstance(container, DGen):
            return any(truth(core.ueq(x, item)) for x in container)
        return item in container

    def mod(self, a, b):
        if isinstance(a, str) or isinstance(a, SStr):
            return str_mod(a, b)
        return a % b

    def fstr(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                out.append(p)
                continue
            v, conv, spec = p
            if conv == ord('r'):
                v = b_repr(v)
            elif conv == ord('s'):
                v = b_str(v)
            out.append(fmt_value(v, spec))
        return SStr.make(out)

    def smethod(self, obj, name, *a, **k):
        if isinstance(obj, str):
            if name == 'format':
                return str_format(obj, a, k)
            if name == 'join':
                return str_join(obj, a[0])
            if any(isinstance(x, Sym) for x in a):
                if name in ('startswith', 'endswith') and isinstance(a[0], SStr):
                    raise Unsupported('str.%s' % name)
                if name == 'count' and isinstance(a[0], SStr):
                    n = SNum(z3.IntVal(0))
                    for c in obj:
                        n = n + SBool(zb(a[0] == c)).num()
                    return n
                raise Unsupported('str.%s' % name)
        return getattr(obj, name)(*a, **k)

    def dlist(self, x):
        return DList(x)

    def ddict(self, items):
        d = DDict()
        for k, v in items:
            if k is self.STAR:
                d.update(v)
            else:
                d._put(k, v)
        return d

    def dset(self, items):
        return DSet(items)

    def hookclass(self, cls):
        if cls.__setattr__ is object.__setattr__:
            def __setattr__(self, k, v):
                if core.E is not None and core.E.gctx:
                    core.E.mut(self, 'setattr', (k, v))
                object.__setattr__(self, k, v)
            cls.__setattr__ = __setattr__
            init = cls.__init__

            def __init__(self, *a, **k):
                newborn(self)
                init(self, *a, **k)
            cls.__init__ = __init__
        return cls


DV = _DV()


# ---------------------------------------------------------------- strings
def fmt_value(v, spec):
    if not has_symbol(v):
        return format(native(v), spec if isinstance(spec, str) else str(spec))
    if spec == '' and isinstance(v, SStr):
        return v
    if spec == '':
        return b_str(v)
    return SStr([Atom('fmt:' + spec, v)])


def str_mod(a, b):
    import re
    if not isinstance(a, SStr) and not deep_sym(b):
        return a % b
    args = list(b) if isinstance(b, tuple) else None
    single = b
    pos = [0]

    def take():
        if args is None:
            if pos[0]:
                raise TypeError('not enough arguments for format string')
            pos[0] += 1
            return single
        if pos[0] >= len(args):
            raise TypeError('not enough arguments for format string')
        pos[0] += 1
        return args[pos[0] - 1]
    out = []
    for piece in (a.pieces if isinstance(a, SStr) else [a]):
        if not isinstance(piece, str):
            if getattr(piece, 'kind', '') in ('char', 'word', 'phase'):
                # symbolic text cannot contain directives
                out.append(piece)
                continue
            out.append(piece)
            continue
        i = 0
        for m in re.finditer(r'%(\((\w+)\))?([-#0 +]*\d*(?:\.\d+)?)([a-zA-Z%])', piece):
            out.append(piece[i:m.start()])
            i = m.end()
            if m.group(4) == '%':
                out.append('%')
                continue
            v = b[m.group(2)] if m.group(2) else take()
            if not has_symbol(v):
                out.append(('%' + m.group(3) + m.group(4)) % (native(v),))
            elif m.group(4) == 's' and not m.group(3):
                out.append(b_str(v))
            elif m.group(4) == 'r' and not m.group(3):
                out.append(b_repr(v))
            else:
                out.append(Atom('fmt:%' + m.group(3) + m.group(4), v))
        out.append(piece[i:])
    if args is not None and pos[0] < len(args):
        raise TypeError('not all arguments converted during string formatting')
    return SStr.make(out)


def str_format(a, args, kw):
    import string
    if isinstance(a, str) and not deep_sym(args) and not deep_sym(kw):
        return a.format(*args, **kw)
    out, auto = [], 0
    for piece in (a.pieces if isinstance(a, SStr) else [a]):
        if not isinstance(piece, str):
            out.append(piece)
            continue
        for lit, field, spec, conv in string.Formatter().parse(piece):
            out.append(lit)
            if field is None:
                continue
            first, rest = _string_split(field)
            if first == '':
                v = args[auto]
                auto += 1
            elif isinstance(first, int):
                v = args[first]
            else:
                v = kw[first]
            for isattr, key in rest:
                v = getattr(v, key) if isattr else v[key]
            if conv == 'r':
                v = b_repr(v)
            elif conv == 's':
                v = b_str(v)
            out.append(fmt_value(v, spec or ''))
    return SStr.make(out)


def _string_split(field):
    import _string
    first, rest = _string.formatter_field_name_split(field)
    return first, list(rest)


def str_join(sep, it):
    if isinstance(it, DGen):
        it = it.aslist()
    xs = parts_of(it)
    if any(isinstance(x, Gap) for x in xs):
        raise Unsupported('join of unknown elements')
    if not deep_sym(xs):
        return sep.join(xs)
    out = []
    for i, x in enumerate(xs):
        if not isinstance(x, (str, SStr)):
            raise TypeError('sequence item: expected str instance')
        if i:
            out.append(sep)
        out.append(x)
    return SStr.make(out)


# ---------------------------------------------------------------- builtins
def b_len(x):
    if hasattr(x, 'length') and not isinstance(x, type):
        n = x.length
        return n() if callable(n) else n
    if isinstance(x, (Sym,)) and not hasattr(x, '__len__'):
        raise TypeError("object of type '%s' has no len()" % type(x).__name__)
    if hasattr(type(x), '__len__') and hasattr(x, 'traces'):
        return b_len(x.traces)
    return _b.len(x)


def b_int(x=0, *a):
    if isinstance(x, (SNum, SBool)):
        return strunc(x)
    if isinstance(x, (SStr,)):
        return SNum(z3.Function('lib:int(str)', z3.IntSort(), z3.IntSort())(x.pieces[0].term)) \
            if len(x.pieces) == 1 and getattr(x.pieces[0], 'kind', '') == 'word' else _uns('int of a string')
    if isinstance(x, (Sym,)):
        raise TypeError("int() argument must be a string or a number, not '%s'" % type(x).__name__)
    return _b.int(x, *a)


def _uns(msg):
    raise Unsupported(msg)


def b_float(x=0.):
    if isinstance(x, (SNum, SBool)):
        x = lift(x)
        return SNum(real_t(x), x.nan)
    if isinstance(x, Sym):
        raise Unsupported('float()')
    return _b.float(x)


def b_bool(x=False):
    return _b.bool(x)


def b_str(x='', *a):
    if isinstance(x, SStr):
        return x
    if hasattr(x, '__dvstr__'):
        return x.__dvstr__()
    if isinstance(x, (SNum, SUTC, OpaqueObj, SBool, SCplx)):
        if isinstance(x, SNum) and x.const() is not None and x.isint():
            return _b.str(x.const())
        return SStr([Atom('str', x)])
    if isinstance(x, (DList, DDict, tuple, list, dict)) and deep_sym(x):
        return b_repr(x)
    if isinstance(x, (SArr,)):
        return SStr([Atom('strarr', x)])
    if isinstance(x, Sym) or x is POISON:
        raise Unsupported('str() of %s' % type(x).__name__)
    return _b.str(x, *a)


def b_repr(x):
    if isinstance(x, tuple) and deep_sym(x):
        out = ['(']
        for i, p in enumerate(x):
            out += ([', '] if i else []) + [b_repr(p)]
        return SStr.make(out + [',)' if len(x) == 1 else ')'])
    if isinstance(x, list) and (deep_sym(x) or isinstance(x, DList)):
        out = ['[']
        for i, p in enumerate(parts_of(x)):
            if isinstance(p, Gap):
                raise Unsupported('repr of unknown elements')
            out += ([', '] if i else []) + [b_repr(p)]
        return SStr.make(out + [']'])
    if isinstance(x, DDict) and type(x) is DDict:
        out = ['{']
        for i, (k, v) in enumerate(zip(x.ks, x.vs)):
            out += ([', '] if i else []) + [b_repr(k), ': ', b_repr(v)]
        return SStr.make(out + ['}'])
    if isinstance(x, SNum) and x.const() is not None and x.isint():
        return _b.repr(x.const())
    if isinstance(x, (SNum, SUTC, OpaqueObj, SBool, SStr, SArr, SCplx)):
        return SStr([Atom('repr', x)])
    if isinstance(x, Sym) or x is POISON:
        raise Unsupported('repr of %s' % type(x).__name__)
    return _b.repr(x)


def b_isinstance(x, cls):
    if isinstance(cls, tuple):
        return any(b_isinstance(x, c) for c in cls)
    if x is POISON:
        raise Unsupported('poisoned value')
    if cls is b_int or cls is _b.int:
        return isinstance(x, _b.int) or (isinstance(x, SNum) and x.isint()) or isinstance(x, SBool)
    if cls is b_float or cls is _b.float:
        return isinstance(x, _b.float) or (isinstance(x, SNum) and not x.isint())
    if cls is b_str or cls is _b.str:
        return isinstance(x, (_b.str, SStr))
    if cls is b_bool or cls is _b.bool:
        return isinstance(x, (_b.bool, SBool))
    if cls is b_list or cls is _b.list:
        return isinstance(x, _b.list)
    if cls is b_tuple or cls is _b.tuple:
        return isinstance(x, _b.tuple)
    if cls is b_dict or cls is _b.dict:
        return isinstance(x, _b.dict)
    if cls is b_set or cls is _b.set:
        return isinstance(x, (_b.set, DSet))
    if cls is NDARRAY:
        return isinstance(x, (SArr, _np.ndarray))
    if cls is MASKED:
        return isinstance(x, SArr) and x.masked
    if cls is UTCDateTime:
        return isinstance(x, SUTC)
    return _b.isinstance(x, cls)


def b_abs(x):
    return _b.abs(x)


def b_round(x, nd=None):
    if isinstance(x, SNum):
        return sround(x, nd)
    if isinstance(x, SArr):
        return np_around(x)
    return _b.round(x) if nd is None else _b.round(x, nd)


def b_max(*a, **k):
    return _minmax(a, k, core.smax, _b.max)


def b_min(*a, **k):
    return _minmax(a, k, core.smin, _b.min)


def _minmax(a, k, f, real):
    xs = list(a) if len(a) > 1 else (a[0].aslist() if isinstance(a[0], DGen) else a[0])
    ps = list(parts_of(xs)) if not isinstance(xs, SArr) else None
    if ps is None:
        if k or xs.ndim != 1:
            raise Unsupported('builtin max of an array')
        return (np_max if f is core.smax else np_min)(xs)
    if not deep_sym(ps):
        return real(ps, **k)
    if any(isinstance(p, Gap) for p in ps):
        h = getattr(E(), 'gap_extremum', None)
        if h is None or k:
            raise Unsupported('extremum of unknown elements')
        return h(ps, 'max' if f is core.smax else 'min')
    key = k.get('key')
    if not ps:
        if 'default' in k:
            return k['default']
        raise ValueError('max() arg is an empty sequence')
    if key is None:
        r = ps[0]
        for x in ps[1:]:
            r = f(r, x)
        return r
    r, kr = ps[0], key(ps[0])
    for x in ps[1:]:
        kx = key(x)
        better = kx > kr if f is core.smax else kx < kr
        if better:
            r, kr = x, kx
    return r


def b_sum(it, start=0):
    if isinstance(it, SArr):
        raise Unsupported('builtin sum of an array')
    if isinstance(it, DGen):
        it = it.aslist()
    ps = parts_of(it)
    if any(isinstance(p, Gap) for p in ps):
        return start + gap_sum(ps)
    r = start
    for x in ps:
        r = r + (x.num() if isinstance(x, SBool) else x)
    return r


def gap_sum(ps):
    raise Unsupported('sum of unknown elements')


def b_any(it):
    if isinstance(it, SArr):
        return np_any(it)
    for x in (it if isinstance(it, DGen) else DV.loop('any', it)):
        if x:
            return True
    return False


def b_all(it):
    if isinstance(it, SArr):
        return np_all(it)
    for x in (it if isinstance(it, DGen) else DV.loop('all', it)):
        if not x:
            return False
    return True


def b_sorted(it, key=None, reverse=False):
    if isinstance(it, DGen):
        it = it.aslist()
    if hasattr(it, '__sorted__'):
        return it.__sorted__(key, reverse)
    ps = parts_of(it)
    if not deep_sym(list(ps)) and key is None:
        return DList(_b.sorted(ps, reverse=reverse))
    if any(isinstance(p, Gap) for p in ps):
        raise Unsupported('sort of unknown elements')
    ks = [(key(p) if key else p) for p in ps]
    order = []
    for i in range(len(ps)):
        j = len(order)
        while j > 0 and _less(ks[i], ks[order[j - 1]], reverse):
            j -= 1
        order.insert(j, i)
    return DList([ps[i] for i in order])


def _less(a, b, reverse):
    if isinstance(a, tuple) and isinstance(b, tuple):
        for x, y in zip(a, b):
            if truth(core.ueq(x, y)):
                continue
            return _less(x, y, reverse)
        return (len(a) < len(b)) if not reverse else (len(a) > len(b))
    if reverse:
        a, b = b, a
    return truth(a < b)


class SRange(object):
    def __init__(self, a, b, step=1):
        if not isinstance(step, int) or step != 1:
            raise Unsupported('symbolic range step')
        self.a, self.b = lift(a), lift(b)
        d = self.b - self.a
        self.n = SNum(z3.If(d.t > 0, d.t, z3.IntVal(0)))
        a_, b_ = self.a.t, self.b.t

        def fresh(lo, hi):
            def f():
                i = z3.Int(E().name('i'))
                E().assume(z3.And(i >= lo, i < hi))
                return SNum(i)
            return f
        reps = [r for r in getattr(E(), 'range_reps', [])]
        if len(reps) == 1 and E().entails(z3.And(reps[0].t >= a_, reps[0].t < b_)):
            r = reps[0]
            g1 = Gap('range', fresh(a_, r.t), n=SNum(r.t - a_))
            g2 = Gap('range', fresh(r.t + 1, b_), n=SNum(b_ - r.t - 1))
            g1.interval, g2.interval = (a_, r.t), (r.t + 1, b_)
            self.parts = [g1, r, g2]
        else:
            g = Gap('range', fresh(a_, b_), n=self.n)
            g.interval = (a_, b_)
            self.parts = [g]

    def __parts__(self):
        return self.parts

    def length(self):
        return self.n

    def __iter__(self):
        return DV.loop('range', self)


def b_range(*a):
    if any(isinstance(x, SNum) for x in a):
        a = tuple(x.const() if isinstance(x, SNum) and isinstance(x.const(), int) else x for x in a)
        if any(isinstance(x, SNum) for x in a):
            if len(a) == 1:
                return SRange(0, a[0])
            return SRange(*a)
    return _b.range(*a)


def b_enumerate(it, start=0):
    if isinstance(it, DGen):
        it = it.aslist()
    if not hasattr(it, '__parts__') or not has_gap(it):
        return DList([(i + start, x) for i, x in enumerate(parts_of(it))]) if hasattr(it, '__parts__') or isinstance(
            it, (list, tuple)) else _lazy_enum(it, start)
    out, pos = DList(), lift(start)
    for p in parts_of(it):
        if isinstance(p, Gap):
            def fresh(p=p, pos=pos):
                i = z3.Int(E().name('i'))
                E().assume(z3.And(i >= pos.t, i < pos.t + int_t(p.n)))
                return (SNum(i), p.fresh())
            g = Gap('enum', fresh, n=p.n)
            out.parts.append(g)
            pos = pos + p.n
        else:
            out.parts.append((pos, p))
            pos = pos + 1
    return out


def _lazy_enum(it, start):
    for x in it:
        yield start, x
        start = start + 1


def _zip_arrays(its):
    """rows of arrays of symbolic length, by their index"""
    if not all(isinstance(i, SArr) for i in its):
        raise Unsupported('zip of symbolic arrays')
    n = lift(its[0].length())
    for i in its[1:]:
        m = lift(i.length())
        if not holds(veq(m, n)):
            n = SNum(z3.simplify(z3.If(m.t < n.t, m.t, n.t)))
    frozen = [freeze(i) for i in its]

    def row(i):
        return tuple(a.at(i) for a in frozen)
    out = DList()
    for p in SRange(0, n).parts:
        if not isinstance(p, Gap):
            out.parts.append(row(p))
            continue
        g = Gap('zip', None, n=p.n)

        def fresh(p=p, g=g):
            g.index = p.fresh()
            return row(g.index)
        g.fresh_, g.interval, g.at_index = fresh, p.interval, row
        out.parts.append(g)
    return out


def b_zip(*its):
    its = [i.aslist() if isinstance(i, DGen) else i for i in its]
    if not any(hasattr(i, '__parts__') and has_gap(i) for i in its):
        cols = []
        for i in its:
            if isinstance(i, SArr):
                n = i.length()
                if isinstance(n, SNum) and not isinstance(n.const(), int):
                    return _zip_arrays(its)
            cols.append(list(parts_of(i)))
        return DList(list(zip(*cols)))
    ps = [list(parts_of(i)) for i in its]
    if len(set(len(p) for p in ps)) == 1:
        out = DList()
        for row in zip(*ps):
            gaps = [isinstance(x, Gap) for x in row]
            if all(gaps):
                if not all(holds(veq(row[0].n, g.n)) for g in row[1:]):
                    raise Unsupported('zip of sequences of different structure')
                if any(getattr(g, 'image_of', None) is not None for g in row):
                    raise Unsupported('zip of derived sequences')
                out.parts.append(Gap('zip', lambda row=row: tuple(g.fresh() for g in row), n=row[0].n))
            elif any(gaps):
                raise Unsupported('zip of sequences of different structure')
            else:
                out.parts.append(tuple(row))
        return out
    raise Unsupported('zip of sequences of different structure')


def b_list(it=()):
    if isinstance(it, DGen):
        return it.aslist()
    if isinstance(it, SStr):
        return DList(list(it))
    if not hasattr(it, '__parts__') and not isinstance(it, (list, tuple)):
        return DV.comp('list()', 'list', it, None, lambda x: x)
    return DList(it)


def b_tuple(it=()):
    if isinstance(it, DGen):
        it = it.aslist()
    ps = list(parts_of(it))
    if any(isinstance(p, Gap) for p in ps):
        raise Unsupported('tuple of unknown elements')
    return tuple(ps)


def b_set(it=()):
    s = DSet()
    ps = None
    if isinstance(it, DGen):
        ps = parts_of(it.aslist())
    elif hasattr(it, '__parts__') and any(isinstance(p, Gap) for p in parts_of(it)):
        ps = parts_of(it)
    if ps is not None:
        for x in ps:
            if not isinstance(x, Gap):
                s.add(x)
        for x in ps:
            if isinstance(x, Gap):
                s.add_gap(x)
        return s
    src = it if isinstance(it, DGen) else DV.loop('set', it)
    for x in src:
        s.add(x)
    return s


def b_dict(*a, **k):
    return DDict(*[(x.aslist() if isinstance(x, DGen) else x) for x in a], **k)


def b_hasattr(x, k):
    try:
        getattr(x, k)
        return True
    except AttributeError:
        return False
    except Unsupported:
        if isinstance(x, SArr):
            return _b.hasattr(_np.ndarray, k)
        raise


def b_type(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, SStr):
            return _b.str
        if isinstance(x, DList):
            return _b.list
        if type(x) is DDict:
            return _b.dict
        if isinstance(x, Sym):
            raise Unsupported('type() of a symbolic value')
    return _b.type(*a)


def b_map(f, *its):
    return DV.comp('map', 'list', its[0] if len(its) == 1 else b_zip(*its), None,
                   f if len(its) == 1 else (lambda t: f(*t)))


def b_filter(f, it):
    return DV.comp('filter', 'list', it, f if f is not None else (lambda x: x), lambda x: x)


def b_reversed(it):
    return DList(list(parts_of(it))[::-1])


def b_next(it, *d):
    if isinstance(it, DGen):
        for x in it:
            return x
        if d:
            return d[0]
        raise StopIteration()
    return _b.next(it, *d)


def b_iter(it):
    if hasattr(it, '__parts__') or isinstance(it, DGen):
        return DV.loop('iter', it) if not isinstance(it, DGen) else iter(it)
    return _b.iter(it)


def b_print(*a, **k):
    E().log.append(('print', a))


class _TypeMeta(type):
    """builtin replacement usable as a class in isinstance() done by native code"""


BUILTINS = {'len': b_len, 'int': b_int, 'float': b_float, 'str': b_str, 'repr': b_repr, 'isinstance': b_isinstance,
            'abs': b_abs, 'round': b_round, 'max': b_max, 'min': b_min, 'sum': b_sum, 'any': b_any, 'all': b_all,
            'sorted': b_sorted, 'range': b_range, 'enumerate': b_enumerate, 'zip': b_zip, 'list': b_list,
            'tuple': b_tuple, 'set': b_set, 'dict': b_dict, 'hasattr': b_hasattr, 'type': b_type, 'map': b_map,
            'filter': b_filter, 'reversed': b_reversed, 'next': b_next, 'iter': b_iter, 'print': b_print,
            'bool': b_bool}


# ================================================================ numpy
class DType(object):
    def __init__(self, c):
        self.char = c
        self.kind = c
        self.name = {'f': 'float64', 'c': 'complex128', 'i': 'int64', 'b': 'bool'}[c]

    def __eq__(self, o):
        return dtype_char(o) == self.char

    def __ne__(self, o):
        return not self == o
    __hash__ = None


def dtype_char(t):
    if t is None:
        return 'f'
    if isinstance(t, DType):
        return t.char
    if t in (b_int, _b.int, 'int', 'i', 'int64', _np.int64, _np.int32, 'int32', 'i4', 'i8'):
        return 'i'
    if t in (b_float, _b.float, 'float', 'f', 'float64', _np.float64, 'd', 'f8', _np.float32, 'float32', 'f4'):
        return 'f'
    if t in (_b.complex, 'complex', 'c', 'complex128', _np.complex128):
        return 'c'
    if t in (b_bool, _b.bool, 'bool', 'b', '?'):
        return 'b'
    raise Unsupported('dtype %r' % (t,))


def is_real_array(x):
    return isinstance(x, _np.ndarray)


def from_real(a):
    a = _np.asarray(a)
    k = {'f': 'f', 'c': 'c', 'i': 'i', 'u': 'i', 'b': 'b'}.get(a.dtype.kind)
    if k is None:
        raise Unsupported('array of dtype %s' % a.dtype)
    if a.ndim == 1:
        vals = a.tolist()

        def fn(i):
            i = lift(i)
            c = i.const()
            if isinstance(c, int):
                return vals[c] if 0 <= c < len(vals) else 0
            if len(vals) > 64:
                raise Unsupported('symbolic index into a concrete array')
            r = vals[-1]
            for j in range(len(vals) - 2, -1, -1):
                r = ite(i.t == j, vals[j], r)
            return r
        return SArr((len(vals),), fn, k)
    if a.ndim == 0:
        return a.item()
    rows = [from_real(r) for r in a]

    def fn2(i, *rest):
        i = lift(i)
        r = rows[-1].at(*rest)
        for j in range(len(rows) - 2, -1, -1):
            r = ite(i.t == j, rows[j].at(*rest), r)
        return r
    return SArr(a.shape, fn2, k)


def conc(x):
    """const -> python number"""
    if isinstance(x, SNum):
        c = x.const()
        return c if c is not None else x
    return x


def as_arr(x):
    if isinstance(x, SArr):
        return x
    if isinstance(x, (list, tuple)):
        return np_array(x)
    if is_real_array(x):
        return from_real(x)
    return x


def np_array(x, dtype=None, copy=True, ndmin=0):
    if isinstance(x, DGen):
        x = x.aslist()
    if isinstance(x, SArr):
        r = x.copy()
    elif is_real_array(x):
        r = from_real(x)
    elif isinstance(x, (list, tuple)):
        ps = parts_of(x)
        if any(isinstance(p, Gap) for p in ps):
            return gap_array(ps)
        ps = [as_arr(p) for p in ps]
        if any(isinstance(p, SArr) for p in ps):
            shapes = [p.shape for p in ps]
            for s in shapes[1:]:
                if len(s) != len(shapes[0]) or not all(holds(veq(a, b)) for a, b in zip(s, shapes[0])):
                    if len(s) == len(shapes[0]) and AND(*[SBool(zb(veq(a, b))) for a, b in zip(s, shapes[0])]):
                        continue
                    raise ValueError('setting an array element with a sequence')
            ps = [freeze(p) for p in ps]

            def fn(i, *rest):
                i = lift(i)
                c = i.const()
                if isinstance(c, int):
                    return ps[c].at(*rest)
                r = ps[-1].at(*rest)
                for j in range(len(ps) - 2, -1, -1):
                    r = ite(i.t == j, ps[j].at(*rest), r)
                return r
            r = SArr((len(ps),) + tuple(shapes[0]), fn, result_dtype(*ps))
        else:
            if not all(isnumber(p) or isinstance(p, (SCplx, complex)) for p in ps):
                raise Unsupported('array of objects')

            def fn1(i):
                i = lift(i)
                c = i.const()
                if isinstance(c, int):
                    return ps[c]
                r = ps[-1]
                for j in range(len(ps) - 2, -1, -1):
                    r = ite(i.t == j, ps[j], r)
                return r
            r = SArr((len(ps),), fn1, result_dtype(*ps) if ps else 'f')
    elif isnumber(x) or isinstance(x, (SCplx, complex)):
        return x
    else:
        raise Unsupported('np.array(%s)' % type(x).__name__)
    if dtype is not None:
        r = np_astype(r, dtype)
    return r


def gap_array(ps):
    """array whose rows are elements of a list with unknown parts: only lists of numbers/arrays from contracts"""
    hook = getattr(E(), 'gap_array', None)
    if hook is not None:
        return hook(ps)
    if len(ps) == 1 and getattr(ps[0], 'at_index', None) is not None:
        return indexed_array(ps[0])
    raise Unsupported('array of unknown elements')


def indexed_array(gap):
    """array of the elements f(i), lo <= i < hi"""
    lo, hi = gap.interval
    memo = {}

    def elem(i):
        i = simp(i)
        if i.get_id() not in memo:
            with E().under(z3.And(i >= lo, i < hi)):
                v = as_arr(gap.at_index(SNum(i)))
                memo[i.get_id()] = (i, freeze(v) if isinstance(v, SArr) else v)
        return memo[i.get_id()][1]
    e = E()
    n = conc(SNum(simp(hi - lo) if e.entails(hi >= lo) else z3.If(hi > lo, hi - lo, z3.IntVal(0))))
    a, b = [elem(e.int('row').t) for _ in range(2)]
    if isnumber(a):
        return SArr((n,), lambda i: elem(lo + int_t(i)), result_dtype(a))
    if not isinstance(a, SArr) or len(a.shape) != len(b.shape) or not all(holds(veq(x, y)) for x, y in zip(a.shape, b.shape)):
        raise Unsupported('array of unknown elements')
    return SArr((n,) + a.shape, lambda i, *k: elem(lo + int_t(i)).at(*k), a.buf.dtype)


def no_more(k):
    if k:
        raise Unsupported('keyword arguments ' + ', '.join(sorted(k)))


def np_asarray(x, dtype=None, **k):
    no_more(k)
    if isinstance(x, SArr) and (dtype is None or dtype_char(dtype) == x.buf.dtype):
        return x
    return np_array(x, dtype)


def np_astype(x, t, copy=True):
    c = dtype_char(t)

    def f(v):
        if c == 'i':
            return strunc(v) if not isinstance(v, SCplx) else strunc(v.re)
        if c == 'f':
            return SNum(real_t(v.re)) if isinstance(v, SCplx) else SNum(real_t(v), lift(v).nan)
        if c == 'c':
            return SCplx.of(v)
        return SBool(zb(v))
    if isinstance(x, SArr):
        return x.map(f, c)
    return f(x)


def shape_of(n):
    if isinstance(n, (tuple, list)):
        return tuple(conc_dim(k) for k in n)
    return (conc_dim(n),)


def conc_dim(n):
    if isinstance(n, int):
        return n
    n = lift(n)
    if not n.isint():
        raise TypeError('an integer is required')
    c = n.const()
    if isinstance(c, int):
        if c < 0:
            raise ValueError('negative dimensions are not allowed')
        return c
    if not E().entails(n.t >= 0):
        if E().decide(n.t < 0):
            raise ValueError('negative dimensions are not allowed')
    return n


def np_full(n, v, dtype=None):
    return SArr(shape_of(n), lambda *i: v, dtype_char(dtype) if dtype is not None else result_dtype(v))


def np_zeros(n, dtype=None):
    c = dtype_char(dtype)
    z = {'f': 0., 'c': SCplx(0, 0), 'i': 0, 'b': False}[c]
    return SArr(shape_of(n), lambda *i: z, c)


def np_ones(n, dtype=None):
    return np_full(n, {'f': 1., 'i': 1, 'c': SCplx(1, 0), 'b': True}[dtype_char(dtype)], dtype or 'f')


def np_empty(n, dtype=None):
    c = dtype_char(dtype)
    shp = shape_of(n)
    f = z3.Function(E().opaque_name('empty'), *([z3.IntSort()] * len(shp) + [z3.RealSort()]))
    return SArr(shp, lambda *i: SNum(f(*[int_t(k) for k in i])), c)


def np_zeros_like(a, dtype=None):
    return np_zeros(as_arr(a).shape, dtype or a.buf.dtype)


def np_ones_like(a, dtype=None):
    return np_ones(as_arr(a).shape, dtype or a.buf.dtype)


def np_arange(*a, **k):
    no_more(k)
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], 1
    else:
        lo, hi, st = a
    lo, hi, st = lift(lo), lift(hi), lift(st)
    if not (lo.isint() and hi.isint() and st.isint()):
        # number of samples = ceil((hi-lo)/st)
        n = -sfloor(-(SNum._div(hi - lo, st, False)))
        n = SNum(z3.If(n.t > 0, n.t, z3.IntVal(0)))
        return SArr((n,), lambda i: lo + lift(i) * st, 'f')
    if st.const() != 1:
        n = -sfloor(-(SNum._div(SNum(real_t(hi - lo)), st, False)))
    else:
        n = hi - lo
    t = simp(z3.If(n.t > 0, n.t, z3.IntVal(0)))
    if E().entails(n.t >= 0):
        t = simp(n.t)
    return SArr((conc(SNum(t)),), lambda i: lo + lift(i) * st, 'i')


def np_linspace(a, b, num=50, endpoint=True, retstep=False, dtype=None):
    num = conc_dim(num)
    if retstep:
        raise Unsupported('linspace with retstep')
    dt = 'f' if dtype is None else dtype_char(dtype)
    if dt not in 'fi':
        raise Unsupported('linspace with dtype %s' % dt)
    if isinstance(a, SArr) or isinstance(b, SArr):
        raise Unsupported('linspace of arrays')
    div = lift(num) - 1 if endpoint else lift(num)
    a, b = lift(a), lift(b)

    def fn(i):
        i = lift(i)
        if div.const() == 0:
            r = SNum(real_t(a), a.nan)
        else:
            r = a + i * SNum._div(b - a, div, False)
        return sfloor(r) if dt == 'i' else r
    return SArr((num,), fn, dt)


def pieces_1d(xs):
    if isinstance(xs, DGen):
        xs = xs.aslist()
    if isinstance(xs, SArr):
        return None
    out = []
    for p in parts_of(xs):
        if isinstance(p, Gap):
            out.append(gap_concat(p))
            continue
        p = as_arr(p)
        if not isinstance(p, SArr):
            p = np_array([p])
        out.append(freeze(p))
    return out


class Blocks(object):
    """concatenation of an unknown number of arrays, one for every index of an interval [a, b):
    off(a) = 0, off(i + 1) = off(i) + length(i), element off(i) + j is element j of array i"""

    def __init__(self, gap):
        e = E()
        self.a, self.b = gap.interval
        self.at_index = gap.at_index
        u = e.name('off')
        self.off = z3.Function(u, z3.IntSort(), z3.IntSort())
        self.block = z3.Function(e.name('block'), z3.IntSort(), z3.IntSort())
        e.assume(self.off(self.a) == 0)
        e.assume(self.off(self.b) >= 0)
        self.reps, self.accessed, self.memo = [], [], {}
        self.arr = SArr((conc(SNum(self.off(self.b))),), self.at, 'f')
        self.arr.blocks = self
        e.blocks.append(self)

    def array(self, i):
        i = simp(i)
        if i.get_id() not in self.memo:
            a = freeze(as_arr(self.at_index(SNum(i))))
            if not isinstance(a, SArr) or a.ndim != 1:
                raise Unsupported('stack of unknown arrays')
            self.memo[i.get_id()] = (i, a)
            E().assume(self.off(i + 1) == self.off(i) + int_t(a.shape[0]))
        return self.memo[i.get_id()][1]

    def rep(self, i):
        """consider array number i"""
        i = int_t(i)
        self.array(i)
        self.reps.append(i)
        # lengths are not negative: off is increasing from 0 to the total length
        E().assume(z3.Implies(z3.And(i >= self.a, i < self.b), z3.And(
            self.off(i) >= 0, self.off(i) <= self.off(i + 1), self.off(i + 1) <= self.off(self.b))))
        for k in self.accessed:
            self.locate(k, i)

    def locate(self, k, i):
        # k lies in array i if off(i) <= k < off(i + 1)
        E().assume(z3.Implies(z3.And(self.off(i) <= k, k < self.off(i + 1)), self.block(k) == i))

    def at(self, k):
        e = E()
        k = simp(int_t(k))
        b = self.block(k)
        if not any(k.eq(x) for x in self.accessed):
            self.accessed.append(k)
            inside = z3.And(k >= 0, k < self.off(self.b))
            e.assume(z3.Implies(inside, z3.And(b >= self.a, b < self.b, self.off(b) <= k, k < self.off(b + 1))))
            for i in self.reps:
                self.locate(k, i)
        for i in self.reps:
            if e.entails(b == i):
                return self.array(i).at(SNum(simp(k - self.off(i))))
        if not e.entails(z3.And(b >= self.a, b < self.b)):
            raise Unsupported('element of a concatenation outside of it')
        return self.array(b).at(SNum(simp(k - self.off(b))))


def gap_concat(gap):
    if getattr(gap, 'at_index', None) is None:
        raise Unsupported('stack of unknown arrays')
    return Blocks(gap).arr


def np_concatenate(xs, axis=0):
    ps = pieces_1d(xs)
    if ps is None:
        raise Unsupported('concatenate')
    nd = ps[0].ndim
    if any(p.ndim != nd for p in ps):
        raise ValueError('all the input array dimensions must match')
    if axis is None:
        raise Unsupported('concatenate')
    if axis < 0:
        axis += nd
    for d in range(nd):
        if d != axis:
            for p in ps[1:]:
                if not holds(veq(p.shape[d], ps[0].shape[d])):
                    if NOT(SBool(zb(veq(p.shape[d], ps[0].shape[d])))):
                        raise ValueError('all the input array dimensions must match exactly')
    offs, n = [], 0
    for p in ps:
        offs.append(n)
        n = p.shape[axis] + n if not (isinstance(n, int) and n == 0) else p.shape[axis]

    def fn(*idx):
        i = lift(idx[axis])
        r = None
        for p, o in reversed(list(zip(ps, offs))):
            if isinstance(p.shape[axis], int) and p.shape[axis] == 0:
                continue
            sub = list(idx)
            sub[axis] = SNum(simp(i.t - int_t(o)))
            if r is None:
                r = p.at(*sub)
            else:
                # elements before the end of this piece
                c = simp(i.t < int_t(o) + int_t(p.shape[axis]))
                if z3.is_true(c):
                    r = p.at(*sub)
                elif not z3.is_false(c):
                    try:
                        v = p.at(*sub)
                    except Unsupported:
                        if E().entails(z3.Not(c)):
                            continue
                        raise
                    r = ite(c, v, r)
        return 0. if r is None else r
    shp = list(ps[0].shape)
    shp[axis] = conc(n)
    return SArr(tuple(shp), fn, result_dtype(*ps))


def np_hstack(xs):
    ps = pieces_1d(xs)
    if ps is None:
        raise Unsupported('hstack')
    return np_concatenate(ps, 0 if ps[0].ndim == 1 else 1)


def np_vstack(xs):
    ps = pieces_1d(xs)
    if ps is None:
        raise Unsupported('vstack')
    ps = [p if p.ndim > 1 else p[None, :] for p in ps]
    return np_concatenate(ps, 0)


def np_append(a, b):
    return np_concatenate([as_arr(a), as_arr(b) if not isnumber(b) else np_array([b])])


def np_diff(a, n=1):
    a = freeze(as_arr(a))
    if a.ndim != 1 or n != 1:
        raise Unsupported('diff')
    n = lift(a.shape[0]) - 1
    t = simp(z3.If(n.t > 0, n.t, z3.IntVal(0)))
    if E().entails(n.t >= 0):
        t = simp(n.t)
    return SArr((conc(SNum(t)),), lambda i: a.at(lift(i) + 1) - a.at(i), a.buf.dtype)


# -- reductions: uninterpreted, congruent on equal arguments
class Reduction(object):
    def __init__(self, kind, n, elem, sym):
        self.kind, self.n, self.elem, self.sym = kind, n, elem, sym


def find_congruent(kind, dims, elem, make, extra=()):
    """symbol of a library function applied to an array (dims, elem) and scalars extra; the same as for an earlier
    application if all arguments are provably equal"""
    e = E()
    lst = e.reds.setdefault(kind, [])
    unsure = []
    for d2, e2, x2, sym in lst:
        if len(d2) != len(dims) or len(x2) != len(extra):
            continue
        rs = []
        for a, b in list(zip(extra, x2)) + list(zip(dims, d2)):
            rs.append(core.decide(veq(a, b)))
            if rs[-1] is False:
                break
        if False in rs:
            continue
        if elem is None:
            if None not in rs:
                return sym
            unsure.append(sym)
            continue
        idx, rng = [], []
        for n in dims:
            i = z3.Int(e.name('cg'))
            idx.append(SNum(i))
            if n is not None:
                rng += [i >= 0, i < int_t(n)]
        try:
            a, b = elem(*idx), e2(*idx)
        except Unsupported:
            unsure.append(sym)
            continue
        c = veq(a, b)
        if c is False:
            continue
        r = c is True or e.by_normal_form(zb(c)) or e.by_cases(zb(c), rng) or core.decide(
            SBool(z3.Implies(z3.And(*rng) if rng else z3.BoolVal(True), zb(c))), 600)
        if r and None not in rs:
            return sym
        if r is not False:
            unsure.append(sym)
    sym = make()
    lst.append((tuple(dims), elem, tuple(extra), sym))
    if unsure:
        e.unsure.update(x for s in unsure + [sym] for x in symbol_names(s))
    return sym


def symbol_names(s):
    if isinstance(s, (tuple, list)):
        return [x for y in s for x in symbol_names(y)]
    s = getattr(s, 't', s)
    if isinstance(s, z3.FuncDeclRef):
        return [s.name()]
    if isinstance(s, z3.ExprRef) and s.num_args() == 0:
        return [s.decl().name()]
    return []


def reduce_scalar(kind, a, extra=(), dtype='f'):
    a = freeze(a)

    def make():
        if dtype == 'i':
            return SNum(z3.Int(E().opaque_name('red_' + kind)))
        if dtype == 'c':
            return SCplx(SNum(z3.Real(E().opaque_name('red_' + kind))), SNum(z3.Real(E().opaque_name('red_' + kind))))
        return SNum(z3.Real(E().opaque_name('red_' + kind)))
    return find_congruent(kind, a.shape, a.at, make, extra)


def concrete_len(a):
    n = a.shape[0]
    if isinstance(n, SNum):
        n = n.const()
    return n if isinstance(n, int) and n <= 16 else None


def axis_reduce(f, a, axis):
    """reduction over one axis of a 2-d array by a function on 1-d arrays"""
    a = freeze(a)
    if a.ndim != 2:
        raise Unsupported('axis')
    if axis in (1, -1):
        return SArr((a.shape[0],), lambda i: f(SArr((a.shape[1],), lambda j: a.at(i, j), a.buf.dtype)), a.buf.dtype)
    return SArr((a.shape[1],), lambda j: f(SArr((a.shape[0],), lambda i: a.at(i, j), a.buf.dtype)), a.buf.dtype)


def np_sum(a, axis=None, **k):
    no_more(k)
    if isinstance(a, DGen):
        a = a.aslist()
    a = as_arr(a)
    if not isinstance(a, SArr):
        return a
    if axis is not None and a.ndim > 1:
        return axis_reduce(np_sum, a, axis)
    if a.ndim == 1 and concrete_len(a) is not None:
        r = 0
        for i in range(concrete_len(a)):
            v = a.at(i)
            r = r + (v.num() if isinstance(v, SBool) else v)
        return r
    if a.buf.dtype == 'c':
        return SCplx(np_sum(a.real), np_sum(a.imag))
    return reduce_scalar('sum', a)


def np_mean(a, axis=None, **k):
    no_more(k)
    if isinstance(a, DGen):
        a = a.aslist()
    if isinstance(a, (list, tuple)) and any(isinstance(p, Gap) for p in parts_of(a)):
        hook = getattr(E(), 'gap_mean', None)
        if hook is None:
            raise Unsupported('mean of unknown arrays')
        return hook(parts_of(a), axis)
    a = as_arr(a)
    if axis is not None and isinstance(a, SArr) and a.ndim > 1:
        return axis_reduce(np_mean, a, axis)
    if a.ndim == 1 and concrete_len(a):
        return edivide(np_sum(a), concrete_len(a))
    if a.ndim == 1 and a.buf.dtype != 'c':
        return edivide(np_sum(a), a.shape[0])
    return reduce_scalar('mean', a)


def np_max(a, axis=None, **k):
    no_more(k)
    if isnumber(a):
        return a
    if isinstance(a, (list, tuple)) and any(isinstance(p, Gap) for p in parts_of(a)) or isinstance(a, DGen):
        return b_max(a)
    a = as_arr(a)
    if a.ndim == 1 and concrete_len(a):
        r = a.at(0)
        for i in range(1, concrete_len(a)):
            r = core.smax(r, a.at(i))
        return r
    if a.buf.dtype == 'c':
        # numpy orders complex numbers by real, then imaginary part
        return reduce_scalar('maxc', a, dtype='c')
    n = a.shape[0]
    if not E().entails(int_t(n) >= 1):
        if E().decide(int_t(n) <= 0):
            raise ValueError('zero-size array to reduction operation maximum which has no identity')
    return reduce_scalar('max', a)


def np_min(a, axis=None, **k):
    no_more(k)
    a = as_arr(a)
    if a.ndim == 1 and concrete_len(a):
        r = a.at(0)
        for i in range(1, concrete_len(a)):
            r = core.smin(r, a.at(i))
        return r
    return reduce_scalar('min', a)


def np_argmax(a, axis=None):
    a = as_arr(a)
    k = reduce_scalar('argmax', a, dtype='i')
    E().assume(z3.And(k.t >= 0, k.t < int_t(a.shape[0])))
    return k


def np_argmin(a, axis=None):
    k = reduce_scalar('argmin', a, dtype='i')
    E().assume(z3.And(k.t >= 0, k.t < int_t(a.shape[0])))
    return k


def np_median(a, axis=None):
    a = as_arr(a)
    if axis == 0 and a.ndim == 2 and isinstance(a.shape[0], int) and a.shape[0] == 1:
        a = freeze(a)
        return SArr((a.shape[1],), lambda j: a.at(0, j), 'f')
    if a.ndim == 1:
        return reduce_scalar('median', a)
    if axis is not None:
        return axis_reduce(np_median, a, axis)
    raise Unsupported('median')


def np_std(a, axis=None):
    return reduce_scalar('std', as_arr(a))


def np_any(a, axis=None):
    a = as_arr(a)
    if not isinstance(a, SArr):
        return a
    if a.ndim == 1 and concrete_len(a) is not None:
        return OR(*[SBool(zb(a.at(i))) for i in range(concrete_len(a))])
    # exists: fork with a witness
    if a.ndim != 1:
        raise Unsupported('any')
    e = E()
    a = freeze(a)
    if e.choose(2, 'any') == 0:
        k = e.int('w')
        e.assume(z3.And(k.t >= 0, k.t < int_t(a.shape[0]), zb(a.at(k))))
        return True
    e.universal.append((0, a.shape[0], lambda i: NOT(SBool(zb(a.at(i))))))
    return False


def np_all(a, axis=None):
    a = as_arr(a)
    return not np_any(~a)


def forall_at(idx):
    """instantiate the universal facts of this path at an index"""
    E().forall_at(idx)


class _Nonzero(object):
    def __init__(self, mask):
        self.mask = freeze(mask)
        self.first = None
        self.n = None

    def length(self):
        try:
            k = self[0]
        except IndexError:
            return 0
        if self.n is None:
            self.n = E().int('nnz', 1)
            E().assume(self.n.t <= int_t(self.mask.shape[0]) - int_t(k))
            E().unsure.add(self.n.t.decl().name())
        return self.n

    size = property(length)

    @property
    def shape(self):
        return (self.length(),)

    def __bool__(self):
        raise Unsupported('truth value of nonzero()')

    def __getitem__(self, i):
        if isinstance(i, int) and i == 0:
            if self.first is None:
                # the same position for equal masks
                first = find_congruent('nonzero', self.mask.shape, self.mask.at, lambda: self)
                if first is not self:
                    self.first = first.first
            if self.first is None:
                e = E()
                n = self.mask.shape[0]
                if e.choose(2, 'nonzero') == 1:
                    e.universal.append((0, n, lambda j: NOT(SBool(zb(self.mask.at(j))))))
                    self.first = 'none'
                else:
                    k = e.int('nz')
                    e.assume(z3.And(k.t >= 0, k.t < int_t(n), zb(self.mask.at(k))))
                    e.universal.append((0, k, lambda j: NOT(SBool(zb(self.mask.at(j))))))
                    e.nonzeros.append(k)
                    self.first = k
                for h in e.hints + ([] if self.first == 'none' else [self.first]):
                    e.forall_at(h)
                if self.first == 'none' and e.sat(z3.BoolVal(True), 1500) == z3.unsat:
                    raise core.PathEnd()
            if self.first == 'none':
                raise IndexError('index 0 is out of bounds for axis 0 with size 0')
            return self.first
        raise Unsupported('nonzero()[%r]' % (i,))


def np_nonzero(a):
    a = as_arr(a)
    if a.ndim != 1:
        raise Unsupported('nonzero')
    return (_Nonzero(a.map(lambda v: SBool(zb(v)), 'b')),)


def np_flatnonzero(a):
    return np_nonzero(a)[0]


def np_isnan(a):
    def f(v):
        if isinstance(v, SCplx):
            return OR(f(v.re), f(v.im))
        v = lift(v)
        return SBool(v.nan) if v.nan is not None else False
    a = as_arr(a)
    return a.map(f, 'b') if isinstance(a, SArr) else f(a)


def np_where(c, a=None, b=None):
    if a is None:
        return np_nonzero(c)
    return broadcast(lambda x, y, z: ite(zb(x), y, z), as_arr(c), as_arr(a), as_arr(b),
                     dtype=result_dtype(as_arr(a), as_arr(b)))


# -- scans and other functions with array results
def opaque_array(kind, shape, dims, elem, extra=(), dtype='f'):
    """array valued library function of (dims, elem, extra)"""
    nd = len(shape)

    def make():
        f = z3.Function(E().opaque_name('lib_' + kind), *([z3.IntSort()] * nd + [z3.RealSort()]))
        if dtype == 'c':
            g = z3.Function(E().opaque_name('lib_' + kind + '_im'), *([z3.IntSort()] * nd + [z3.RealSort()]))
            return (f, g)
        return (f,)
    fs = find_congruent(kind, dims, elem, make, extra)
    if dtype == 'c':
        return SArr(shape, lambda *i: SCplx(SNum(fs[0](*[int_t(k) for k in i])), SNum(fs[1](*[int_t(k) for k in i]))), 'c')
    return SArr(shape, lambda *i: SNum(fs[0](*[int_t(k) for k in i])), dtype)


def np_cumsum(a, axis=None):
    a = freeze(as_arr(a))
    if a.ndim != 1:
        raise Unsupported('cumsum')
    nan0 = a.at(0)
    # NaN propagates: value at k is NaN iff some element up to k is; only tracked for the element itself and
    # monotone NaN conditions (contracts state this assumption)
    val = lambda i: SNum(lift(a.at(i)).t)
    r = opaque_array('cumsum', a.shape, a.shape, val)
    def fn(i):
        v = lift(a.at(i))
        s = r.at(i)
        if v.nan is None:
            return s
        return SNum(s.t, nan_upto(a, i))
    out = SArr(a.shape, fn, 'f')
    out.summands = a
    return out


def nan_upto(a, i):
    """is some element up to index i NaN: uninterpreted, implied by the element itself"""
    e = E()

    def flag(j):
        n = lift(a.at(j)).nan
        return SBool(n if n is not None else z3.BoolVal(False))
    f = a.__dict__.get('nan_fn')
    if f is None:
        f = a.nan_fn = find_congruent('nan_upto', a.shape, flag, lambda: z3.Function(
            e.opaque_name('nan_upto'), z3.IntSort(), z3.BoolSort()))
    t = f(int_t(i))
    key = ('nan', f.name(), simp(int_t(i)).get_id())
    if key not in e.eqmemo:
        e.eqmemo[key] = simp(int_t(i))
        e.assume(z3.Implies(flag(i).t, t))
    return t


def np_interp(x, xp, fp, left=None, right=None):
    xp, fp = freeze(as_arr(xp)), freeze(as_arr(fp))
    tab = SArr((lift(xp.shape[0]),), lambda i: SCplx(xp.at(i), fp.at(i)), 'c')
    if not holds(veq(xp.shape[0], fp.shape[0])):
        if NOT(SBool(zb(veq(xp.shape[0], fp.shape[0])))):
            raise ValueError('fp and xp are not of the same length.')
    extra = [lift(1 if left is None else 0), lift(0 if left is None else left),
             lift(1 if right is None else 0), lift(0 if right is None else right)]
    f = find_congruent('interp', tab.shape, tab.at,
                       lambda: z3.Function(E().opaque_name('lib_interp'), z3.RealSort(), z3.RealSort()), extra)

    def one(v):
        return SNum(f(E().norm.canon(simp(real_t(v)))))
    x = as_arr(x)
    return x.map(one, 'f') if isinstance(x, SArr) else one(x)


def np_searchsorted(a, v, side='left', sorter=None):
    """first index i with a[i] >= v (left) / a[i] > v (right)"""
    a = freeze(as_arr(a))
    if isinstance(v, SArr):
        raise Unsupported('searchsorted')
    e = E()
    k = e.int('ss')
    n = int_t(a.shape[0])
    e.assume(z3.And(k.t >= 0, k.t <= n))
    lt = (lambda x: x < v) if side == 'left' else (lambda x: x <= v)
    e.universal.append((0, k, lambda j: lt(a.at(j))))
    e.universal.append((k, a.shape[0], lambda j: NOT(lt(a.at(j)))))
    # instances next to the boundary
    e.assume(z3.Implies(z3.And(k.t > 0), zb(lt(a.at(k - 1)))))
    e.assume(z3.Implies(k.t < n, zb(NOT(lt(a.at(k))))))
    return k


def np_elementwise(name, real=None):
    def f(a):
        a = as_arr(a)
        g = lambda v: uapp(name, v)
        return a.map(g, 'f') if isinstance(a, SArr) else g(a)
    return f


def trig(name):
    def one(v):
        v = lift(v)
        c = v.const()
        if c == 0:
            return SNum(RV_(0 if name == 'sin' else 1))
        # cos(-x) = cos(x), sin(-x) = -sin(x): choose a sign of the argument
        t = E().norm.canon(simp(real_t(v)))
        m = E().norm.canon(simp(-real_t(v)))
        E().parity(name, t, m)
        if str(m) < str(t):
            s = SNum(core.ufn(name, 1)(m), v.nan)
            return s if name == 'cos' else -s
        return SNum(core.ufn(name, 1)(t), v.nan)

    def f(a):
        a = as_arr(a)
        return a.map(one, 'f') if isinstance(a, SArr) else one(a)
    return f


def RV_(x):
    return z3.RealVal(x)


np_cos = trig('cos')
np_sin = trig('sin')


def PI():
    e = E()
    if getattr(e, '_pi', None) is None or e._pi_solver is not e.solver:
        e._pi = SNum(z3.Real('pi'))
        e._pi_solver = e.solver
        e.assume(z3.And(e._pi.t > z3.RealVal('3.14159265'), e._pi.t < z3.RealVal('3.14159266')))
    return e._pi


def np_radians(a):
    a = as_arr(a)
    g = lambda v: lift(v) * PI() / 180
    return a.map(g, 'f') if isinstance(a, SArr) else g(a)


def np_degrees(a):
    a = as_arr(a)
    g = lambda v: SNum._div(lift(v) * 180, PI(), False)
    return a.map(g, 'f') if isinstance(a, SArr) else g(a)


def np_exp(a):
    def one(v):
        if isinstance(v, (SCplx, complex)):
            v = SCplx.of(v)
            r = uapp('exp', v.re) if v.re.const() != 0 else 1
            return SCplx(np_cos(v.im) * r, np_sin(v.im) * r)
        if lift(v).const() == 0:
            return SNum(RV_(1))
        r = uapp('exp', v)
        E().assume(r.t > 0)
        return r
    a = as_arr(a)
    return a.map(one) if isinstance(a, SArr) else one(a)


def np_sqrt(a):
    a = as_arr(a)
    if isinstance(a, SArr):
        return a.map(core.sqrt, 'f')
    return core.sqrt(a)


def np_abs(a):
    a = as_arr(a)
    return a.map(abs, 'f' if a.buf.dtype == 'c' else a.buf.dtype) if isinstance(a, SArr) else abs(a)


np_absolute = np_fabs = np_abs


def np_real(a):
    a = as_arr(a)
    return a.real


def np_imag(a):
    a = as_arr(a)
    return a.imag


def np_conj(a):
    a = as_arr(a)
    return a.conj()


np_conjugate = np_conj


def np_maximum(a, b):
    return broadcast(core.smax, as_arr(a), as_arr(b))


def np_minimum(a, b):
    return broadcast(core.smin, as_arr(a), as_arr(b))


def np_clip(a, a_min=None, a_max=None, min=None, max=None):
    lo, hi = (a_min if a_min is not None else min), (a_max if a_max is not None else max)
    r = as_arr(a)
    if lo is not None:
        r = broadcast(core.smax, as_arr(r), as_arr(lo))
    if hi is not None:
        r = broadcast(core.smin, as_arr(r), as_arr(hi))
    return r


def np_square(a):
    a = as_arr(a)
    return a * a


def np_floor(a):
    g = lambda v: SNum(z3.ToReal(z3.ToInt(real_t(v))))
    a = as_arr(a)
    return a.map(g, 'f') if isinstance(a, SArr) else g(a)


def np_ceil(a):
    g = lambda v: SNum(-z3.ToReal(z3.ToInt(-real_t(v))))
    a = as_arr(a)
    return a.map(g, 'f') if isinstance(a, SArr) else g(a)


def np_around(a, decimals=0):
    if decimals:
        raise Unsupported('round to digits')
    g = lambda v: SNum(real_t(sround(v)))
    a = as_arr(a)
    return a.map(g, 'f') if isinstance(a, SArr) else g(a)


np_round = np_rint = np_around


def np_dot(a, b):
    a, b = as_arr(a), as_arr(b)
    if isnumber(a) or isnumber(b):
        return a * b
    if a.ndim == 1 and b.ndim == 1:
        return np_sum(a * b)
    raise Unsupported('matrix product')


def np_outer(a, b):
    a, b = freeze(as_arr(a)), freeze(as_arr(b))
    return SArr((a.shape[0], b.shape[0]), lambda i, j: a.at(i) * b.at(j), 'f')


def np_flip(a, axis=None):
    return as_arr(a)[::-1]


np_flipud = np_flip


def np_transpose(a):
    return as_arr(a).T


def np_add(a, b):
    return as_arr(a) + as_arr(b)


def np_subtract(a, b):
    return as_arr(a) - as_arr(b)


def np_multiply(a, b):
    return as_arr(a) * as_arr(b)


def np_divide(a, b):
    return broadcast(edivide, as_arr(a), as_arr(b))


def np_negative(a):
    return -as_arr(a)


def np_power(a, b):
    return as_arr(a) ** b


def np_copy(a):
    return np_array(a)


def np_size(a):
    return as_arr(a).size


def np_shape(a):
    return as_arr(a).shape


def np_item(a):
    return a


def np_isscalar(a):
    return isnumber(a)


def np_array_equal(a, b):
    return holds(veq(as_arr(a), as_arr(b)))


# -- Fourier transforms: opaque functions of the zero padded input
def padded(x, n):
    """first n samples, zero padded"""
    x = freeze(as_arr(x))
    m = x.shape[0]
    return lambda i: ite(int_t(i) < int_t(m), x.at(i), SCplx(0, 0) if x.buf.dtype == 'c' else SNum(RV_(0)))


def np_fft_fft(x, n=None, **k):
    no_more(k)
    x = as_arr(x)
    if x.ndim != 1:
        raise Unsupported('fft')
    if n is None:
        n = x.shape[0]
    p = padded(x, n)
    return opaque_array('fft', (conc_dim(n),), (conc_dim(n),), lambda i: SCplx.of(p(i)), dtype='c')


def np_fft_ifft(x, n=None, **k):
    no_more(k)
    x = as_arr(x)
    if x.ndim != 1:
        raise Unsupported('ifft')
    if n is None:
        n = x.shape[0]
    p = padded(x, n)
    return opaque_array('ifft', (conc_dim(n),), (conc_dim(n),), lambda i: SCplx.of(p(i)), dtype='c')


def np_fft_fftfreq(n, d=1.0):
    """k/(n*d) for k < (n+1)//2, else (k-n)/(n*d)"""
    n = lift(conc_dim(n))
    d = lift(d)

    def fn(i):
        i = lift(i)
        k = SNum(z3.If(i.t < (n.t + 1) / 2, i.t, i.t - n.t))
        return SNum._div(k, n * d, False)
    return SArr((conc(n),), fn, 'f')


def next_fast_len(n):
    if not isinstance(n, SNum):
        import scipy.fftpack
        return scipy.fftpack.next_fast_len(n)
    f = z3.Function('lib:next_fast_len', z3.IntSort(), z3.IntSort())
    t = E().norm.canon(simp(n.t))
    r = f(t)
    E().assume(r >= t)
    return SNum(r)


def correlate(a, b, mode='full', method='auto'):
    """'valid': c[k] = sum over all integers j of a[k+j] * b[j], arrays zero outside, 0 <= k <= len(a)-len(b)"""
    if mode != 'valid':
        raise Unsupported('correlate mode')
    a, b = freeze(as_arr(a)), freeze(as_arr(b))
    n = lift(a.shape[0]) - b.shape[0] + 1
    if not E().entails(n.t >= 1):
        if NOT(n >= 1):
            raise Unsupported('correlate with a longer second array')

    def ext(x):
        m = x.shape[0]
        return lambda i: ite(z3.And(int_t(i) >= 0, int_t(i) < int_t(m)), x.at(i), 0.)
    az, bz = ext(a), ext(b)
    return sum_over_integers((conc(n),), lambda k, j: az(lift(k) + j) * bz(j))


def sum_over_integers(shape, term):
    """array with elements  c[k] = sum over all integers j of term(k, j);  equal to an earlier one if the terms agree
    up to a shift of j"""
    e = E()
    lst = e.reds.setdefault('sumz', [])
    k, j = SNum(z3.Int(e.name('cgk'))), SNum(z3.Int(e.name('cgj')))
    rng = z3.And(k.t >= 0, k.t < int_t(shape[0]))
    t1 = term(k, j)
    for sh2, term2, f in lst:
        if not holds(veq(shape[0], sh2[0])):
            continue
        c1 = boundaries(real_t(t1), j.t)
        c2 = boundaries(real_t(term2(k, j)), j.t)
        cands = [z3.IntVal(0)]
        for x in c1:
            for y in c2:
                s = simp(y - x)
                if not any(s.eq(c) for c in cands):
                    cands.append(s)
        for s in cands[:60]:
            # term(k, j) == term2(k, j + s)
            if e.norm.contains(s, k.t):
                continue
            c = veq(t1, term2(k, j + SNum(s)))
            if c is True or e.sat(z3.And(rng, z3.Not(zb(c))), 3000) == z3.unsat:
                return SArr(shape, lambda i: SNum(f(int_t(i))), 'f')
    f = z3.Function(e.opaque_name('lib_sumz'), z3.IntSort(), z3.RealSort())
    lst.append((shape, term, f))
    return SArr(shape, lambda i: SNum(f(int_t(i))), 'f')


def boundaries(t, j):
    """terms X such that a comparison in t reads j >= X (up to constants)"""
    out, todo, seen = [], [t], set()
    e = E()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
            d = x.arg(0) - x.arg(1)
            if z3.is_int(d) and e.norm.contains(d, j):
                d0 = simp(z3.substitute(d, (j, z3.IntVal(0))))
                d1 = simp(z3.substitute(d, (j, z3.IntVal(1))))
                c = simp(d1 - d0)
                if z3.is_int_value(c) and abs(c.as_long()) == 1:
                    b = simp(-d0 if c.as_long() == 1 else d0)
                    if not any(b.eq(o) for o in out):
                        out.append(b)
        todo.extend(x.children())
    return out


def solve_toeplitz_scipy(c_or_cr, b, check_finite=True):
    c, b = freeze(as_arr(c_or_cr)), freeze(as_arr(b))
    n = c.shape[0]
    if not holds(veq(n, b.shape[0])):
        if NOT(SBool(zb(veq(n, b.shape[0])))):
            raise ValueError('Incompatible dimensions.')
    tab = lambda i: SCplx(c.at(i), b.at(i))
    return opaque_array('solve_toeplitz', (n,), (n,), tab)


def sto_sl(t, b, job=0):
    """toeplitz package: t holds the first row and then the first column from its second element on"""
    t, b = freeze(as_arr(t)), freeze(as_arr(b))
    if job != 0:
        raise Unsupported('sto_sl with job != 0')
    n = b.shape[0]
    if not holds(veq(t.shape[0], 2 * lift(n) - 1)):
        raise Unsupported('sto_sl: length of the Toeplitz matrix')
    i = SNum(z3.Int(E().name('sto')))
    row = SArr((n,), lambda k: t.at(k), t.buf.dtype)
    if E().entails(z3.Implies(z3.And(i.t >= 1, i.t < int_t(n)), zb(veq(t.at(i), t.at(lift(n) - 1 + i))))):
        return solve_toeplitz_scipy(row, b)
    return opaque_array('sto_sl', (n,), (2 * lift(n) - 1,), lambda k: SCplx(t.at(k), b.at(k)))


def lstsq(a, b, rcond='warn'):
    a, b = freeze(as_arr(a)), freeze(as_arr(b))
    n, m = a.shape
    if not holds(veq(n, b.shape[0])):
        if NOT(SBool(zb(veq(n, b.shape[0])))):
            raise E_LinAlg('Incompatible dimensions')
    if b.buf.dtype == 'c':
        tab = lambda i, j: SCplx(a.at(i, j), SNum(RV_(0)))
        x = opaque_lstsq(a, b, n, m, 'c')
    else:
        x = opaque_lstsq(a, b, n, m, 'f')
    if b.ndim != 1:
        raise Unsupported('lstsq with a matrix')
    return (x, OpaqueObj('residuals'), OpaqueObj('rank'), OpaqueObj('sv'))


def opaque_lstsq(a, b, n, m, dtype):
    """minimiser of |a x - b|: a function of a and b"""
    e = E()
    lst = e.reds.setdefault('lstsq', [])
    unsure = []
    for a2, b2, f in lst:
        if len(f) != (2 if dtype == 'c' else 1):
            continue
        r = [core.decide(veq(a, a2)), core.decide(veq(b, b2))]
        if all(r):
            break
        if False not in r:
            unsure += [x.name() for x in f]
    else:
        f = tuple(z3.Function(e.opaque_name('lib_lstsq'), z3.IntSort(), z3.RealSort())
                  for _ in range(2 if dtype == 'c' else 1))
        lst.append((a, b, f))
        if unsure:
            e.unsure.update(unsure + [x.name() for x in f])
    if dtype == 'c':
        return SArr((m,), lambda i: SCplx(SNum(f[0](int_t(i))), SNum(f[1](int_t(i)))), 'c')
    return SArr((m,), lambda i: SNum(f[0](int_t(i))), 'f')


class E_LinAlg(Exception):
    pass


class NDARRAY(object):
    pass


class MASKED(object):
    pass


class _Null(object):
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def _module(name, **attrs):
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    return m


class NumpyStub(types.ModuleType):
    """numpy: symbolic version where an argument is symbolic, the real one otherwise"""
    ndarray = NDARRAY
    newaxis = None
    inf = float('inf')
    nan = float('nan')
    float64 = _np.float64
    float32 = _np.float32
    int64 = _np.int64
    complex128 = _np.complex128
    integer = _np.integer
    floating = _np.floating
    errstate = _Null

    def __init__(self, prefix='np_', name='numpy'):
        types.ModuleType.__init__(self, name)
        self.__dict__['_prefix'] = prefix

    @property
    def pi(self):
        return PI()

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        if k in ('fft', 'linalg', 'ma', 'random'):
            return {'fft': NP_FFT, 'linalg': NP_LINALG, 'ma': NP_MA}.get(k) or _uns('np.random')
        f = globals().get(self._prefix + k)
        if f is None:
            if k in ('bool_', 'int_', 'float_', 'int32', 'uint8', 'str_', 'generic', 'number'):
                return getattr(_np, k, None)

            def g(*a, **kw):
                raise Unsupported('numpy.%s' % k)
            return g
        return f


NP_FFT = _module('numpy.fft', fft=np_fft_fft, ifft=np_fft_ifft, fftfreq=np_fft_fftfreq)
NP_LINALG = _module('numpy.linalg', lstsq=lstsq, LinAlgError=E_LinAlg)


def count_masked(a):
    return 0


NP_MA = _module('numpy.ma', masked_array=MASKED, MaskedArray=MASKED, count_masked=count_masked,
                isMaskedArray=lambda a: b_isinstance(a, MASKED), is_masked=lambda a: b_isinstance(a, MASKED))


def loadtxt(*a, **k):
    hook = getattr(E(), 'loadtxt', None)
    if hook is None:
        raise Unsupported('loadtxt')
    return hook(*a, **k)


np_loadtxt = loadtxt


# ================================================================ obspy
UTCDateTime = SUTC


class AttribDict(DDict):
    """obspy AttribDict: keys are attributes"""
    _own = ('_birth', 'ks', 'vs', 'open_', 'data_')

    def __getattr__(self, k):
        if k.startswith('__') or k in ('_birth', 'ks', 'vs'):
            raise AttributeError(k)
        try:
            return self[k]
        except KeyError:
            raise AttributeError(k)

    def __setattr__(self, k, v):
        if k in self._own:
            object.__setattr__(self, k, v)
        else:
            self[k] = v

    def __delattr__(self, k):
        try:
            del self[k]
        except KeyError:
            raise AttributeError(k)

    def copy(self):
        import copy
        return copy.deepcopy(self)

    def __copy__(self):
        d = self.__class__()
        d.ks, d.vs = list(self.ks), list(self.vs)
        if getattr(self, 'open_', None) is not None:
            object.__setattr__(d, 'open_', (self.open_[0], dict(self.open_[1])))
        return d

    def __deepcopy__(self, memo):
        import copy
        d = self.__class__()
        for k, v in zip(self.ks, self.vs):
            d._put(k, copy.deepcopy(v, memo) if not isinstance(v, core.Sym) else v)
        return d


DEFAULTS = [('sampling_rate', 1.0), ('delta', 1.0), ('starttime', None), ('npts', 0), ('calib', 1.0),
            ('network', ''), ('station', ''), ('location', ''), ('channel', '')]


class Stats(AttribDict):
    """obspy Stats: endtime, delta and sampling_rate follow from each other; `open_`: factory of headers a generic
    trace may have, (key) -> (presence condition, value)"""

    def __init__(self, header=None, open_=None):
        AttribDict.__init__(self)
        object.__setattr__(self, 'open_', open_)
        for k, v in DEFAULTS:
            self._put(k, SUTC(0) if k == 'starttime' else v)
        if header is not None:
            self.update(header)

    def _lazy(self, key):
        if self.open_ is not None and isinstance(key, str):
            o, cache = self.open_
            if key not in cache:
                cache[key] = o(key)
            pv = cache[key]
            if pv is not None and not any(isinstance(k, str) and k == key for k in self.ks):
                del_ = cache.get('-' + key)
                if not del_:
                    cache['-' + key] = True
                    if pv[0] is True or bool(pv[0]):
                        AttribDict._put(self, key, pv[1])

    def _put(self, key, v):
        if self.open_ is not None and isinstance(key, str):
            cache = self.open_[1]
            if key not in cache:
                cache[key] = None
            cache['-' + key] = True
        AttribDict._put(self, key, v)

    def _find(self, key):
        i = AttribDict._find(self, key)
        if i is None and self.open_ is not None and key not in ('endtime',):
            self._lazy(key)
            i = AttribDict._find(self, key)
        return i

    def __contains__(self, key):
        return (isinstance(key, str) and key == 'endtime') or AttribDict.__contains__(self, key)

    def __getitem__(self, key):
        if isinstance(key, str) and key == 'component':
            return self['channel'][-1:]
        if isinstance(key, str) and key == 'endtime':
            n = lift(self['npts'])
            last = SNum(z3.If(n.t > 0, n.t - 1, z3.IntVal(0)))
            if E().entails(n.t > 0):
                last = n - 1
            return SUTC(self['starttime'].s + last * self['delta'])
        return AttribDict.__getitem__(self, key)

    def __setitem__(self, key, v):
        if isinstance(key, str) and key == 'endtime':
            raise AttributeError('Attribute "endtime" in Stats object is read only!')
        if isinstance(key, str) and key == 'component':
            key, v = 'channel', self['channel'][:-1] + v
        if isinstance(v, dict) and not isinstance(v, AttribDict):
            d = AttribDict()
            d.update(v)
            v = d
        if isinstance(key, str) and key == 'sampling_rate':
            AttribDict.__setitem__(self, 'delta', SNum._div(1, v) if not isinstance(v, (int, float)) else (1 / v if v else 0.))
        if isinstance(key, str) and key == 'delta':
            AttribDict.__setitem__(self, 'sampling_rate',
                                   SNum._div(1, v) if not isinstance(v, (int, float)) else (1 / v if v else 0.))
        AttribDict.__setitem__(self, key, v)

    def get(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            return default

    def keys(self):
        if self.open_ is not None:
            raise Unsupported('all headers of an unknown trace')
        return DList(list(self.ks) + ['endtime'])

    def __iter__(self):
        return iter(list(self.keys()))

    def items(self):
        return DList([(k, self[k]) for k in self.keys()])

    def copy(self):
        import copy
        return copy.deepcopy(self)

    def __deepcopy__(self, memo):
        import copy
        s = self.__class__()
        s.ks, s.vs = [], []
        for k, v in zip(self.ks, self.vs):
            s._put(k, copy.deepcopy(v, memo) if not isinstance(v, Sym) else v)
        if self.open_ is not None:
            o, cache = self.open_
            object.__setattr__(s, 'open_', (o, dict(cache)))
        return s

    def update(self, *a, **k):
        for src in a:
            if isinstance(src, Stats) and src is not self:
                if src.open_ is not None:
                    object.__setattr__(self, 'open_', (src.open_[0], dict(src.open_[1])))
                for key, v in zip(src.ks, src.vs):
                    AttribDict.__setitem__(self, key, v)
            elif isinstance(src, dict) and not isinstance(src, DDict):
                for key, v in src.items():
                    self[key] = v
            else:
                for key, v in zip(src.ks, src.vs):
                    if key == 'endtime':
                        continue
                    self[key] = v
        for key, v in k.items():
            self[key] = v


class Trace(object):
    """obspy Trace.  Operations of obspy whose numerical result nobody looks into are recorded in `log` and give new
    unknown samples."""

    def __init__(self, data=None, header=None):
        newborn(self)
        object.__setattr__(self, 'log', [])
        if data is None:
            data = np_zeros(0)
        if isinstance(data, _np.ndarray):
            data = from_real(data)
        if header is None:
            header = {}
        # obspy: shallow copy of the header, the number of samples only if it is not given there
        st = Stats()
        st.update(header if not isinstance(header, dict) or isinstance(header, DDict) else DDict(header))
        object.__setattr__(self, 'stats', st)
        data = as_arr(data)
        if not isinstance(data, SArr):
            raise ValueError('Trace.data must be a NumPy array')
        if 'npts' not in header:
            st._put('npts', b_len(data))
        object.__setattr__(self, 'data', data)

    def __setattr__(self, k, v):
        if core.E is not None and core.E.gctx:
            core.E.mut(self, 'setattr', (k, v))
        if k == 'data':
            v = as_arr(v)
            if not isinstance(v, SArr):
                raise ValueError('Trace.data must be a NumPy array')
            self.stats['npts'] = b_len(v)
        object.__setattr__(self, k, v)

    def length(self):
        return b_len(self.data)

    def __len__(self):
        return _b.len(self.data)

    def __bool__(self):
        return True

    @property
    def id(self):
        s = self.stats
        return SStr.make([s['network'], '.', s['station'], '.', s['location'], '.', s['channel']])

    def get_id(self):
        return self.id

    def __str__(self, id_length=None):
        return SStr([Atom('trace', self.id)])

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o
    __hash__ = None

    def copy(self):
        return self.__deepcopy__({})

    def __copy__(self):
        t = self.__class__.__new__(self.__class__)
        for k, v in self.__dict__.items():
            object.__setattr__(t, k, v)
        newborn(t)
        return t

    def __deepcopy__(self, memo):
        import copy
        t = self.__class__.__new__(self.__class__)
        newborn(t)
        object.__setattr__(t, 'log', list(self.log))
        object.__setattr__(t, 'stats', copy.deepcopy(self.stats, memo))
        object.__setattr__(t, 'data', self.data.copy())
        for k in ('origin', 'tag'):
            if k in self.__dict__:
                object.__setattr__(t, k, self.__dict__[k])
        return t

    # -- operations with unknown result
    def renew(self, name, args, n=None, keep_length=False):
        core.E.mut(self, 'setattr', None) if core.E.gctx else None
        self.log.append((name,) + tuple(args))
        if not keep_length:
            n = E().int('npts_' + name, 0) if n is None else n
        else:
            n = b_len(self.data)
        d = SArr.symbolic(E().opaque_name('data_' + name), n)
        E().opaque.add([k for k in E().names if k.startswith('data_' + name)][-1])
        object.__setattr__(self, 'data', d)
        self.stats._put('npts', n)
        return self

    def trim(self, starttime=None, endtime=None, pad=False, nearest_sample=True, fill_value=None):
        h = getattr(E(), 'trim_hook', None)
        if h is not None and h(self, starttime, endtime, pad, nearest_sample, fill_value):
            return self
        self.renew('trim', (starttime, endtime, pad, nearest_sample, fill_value))
        self.stats._put('starttime', SUTC(E().real('start_trim')))
        return self

    def slice(self, starttime=None, endtime=None, nearest_sample=True):
        t = self.copy()
        t.log.append(('slice', starttime, endtime, nearest_sample))
        if not E().gctx:
            E().slices.append(t)
        n = E().int('npts_slice', 0)
        object.__setattr__(t, 'data', SArr.symbolic(E().opaque_name('data_slice'), n))
        t.stats._put('npts', n)
        t.stats._put('starttime', SUTC(E().real('start_slice')))
        return t

    def filter(self, type, **options):
        self.renew('filter', (type, options), keep_length=True)
        return self

    def taper(self, max_percentage=None, type='hann', max_length=None, side='both', **kw):
        self.renew('taper', (max_percentage, type, max_length, side), keep_length=True)
        return self

    def decimate(self, factor, no_filter=False, strict_length=False):
        self.renew('decimate', (factor, no_filter, strict_length))
        self.stats['sampling_rate'] = SNum._div(lift(self.stats['sampling_rate']), factor, False)
        return self

    def resample(self, rate, *a, **k):
        self.renew('resample', (rate,) + a)
        self.stats['sampling_rate'] = rate
        return self

    def interpolate(self, rate, *a, **k):
        self.renew('interpolate', (rate,) + a)
        self.stats['sampling_rate'] = rate
        return self

    def detrend(self, *a, **k):
        return self.renew('detrend', a, keep_length=True)

    def normalize(self, *a, **k):
        return self.renew('normalize', a, keep_length=True)

    def times(self, type='relative', reftime=None):
        if type != 'relative':
            raise Unsupported('times')
        dt = lift(self.stats['delta'])
        off = 0 if reftime is None else self.stats['starttime'] - reftime
        return SArr((b_len(self.data),), lambda i: lift(i) * dt + off, 'f')

    def max(self):
        return reduce_scalar('absmax', self.data)

    def _internal_add_processing_info(self, info):
        if 'processing' not in self.stats:
            self.stats['processing'] = DList()
        p = self.stats['processing']
        p.append(info)

    def write(self, filename, format=None, **kw):
        self.log.append(('write', filename, format, kw))


class Stream(object):
    """obspy Stream: list of traces"""

    def __init__(self, traces=None):
        self.traces = DList()
        if isinstance(traces, Trace):
            traces = [traces]
        if traces is not None:
            self.traces.parts.extend(parts_of(traces))

    def __new__(cls, *a, **k):
        o = object.__new__(cls)
        newborn(o)
        return o

    def __setattr__(self, k, v):
        if core.E is not None and core.E.gctx and not isinstance(getattr(type(self), k, None), property):
            core.E.mut(self, 'setattr', (k, v))
        object.__setattr__(self, k, v)

    def __parts__(self):
        return parts_of(self.traces)

    def length(self):
        return b_len(self.traces)

    def __len__(self):
        return _b.len(self.traces)

    def __bool__(self):
        return _b.bool(self.traces)

    def __iter__(self):
        return _b.iter(self.traces)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self.__class__(traces=self.traces[i])
        return self.traces[i]

    def __setitem__(self, i, v):
        self.traces[i] = v

    def __contains__(self, tr):
        return any(t is tr for t in self.traces)

    def __add__(self, o):
        tr = [o] if isinstance(o, Trace) else o
        return self.__class__(DList(self.traces) + DList(tr))

    def __iadd__(self, o):
        self.extend([o] if isinstance(o, Trace) else o)
        return self

    def append(self, tr):
        if not isinstance(tr, Trace):
            raise TypeError('Append only supports a single Trace object as an argument.')
        self.traces.append(tr)
        return self

    def extend(self, o):
        self.traces.extend(o)
        return self

    def insert(self, i, tr):
        self.traces.insert(i, tr)
        return self

    def pop(self, i=-1):
        return self.traces.pop(i)

    def remove(self, tr):
        self.traces.parts = [t for t in self.traces.parts if t is not tr]
        return self

    def copy(self):
        import copy
        out = []
        for p in parts_of(self.traces):
            if isinstance(p, Gap):
                out.append(Gap(p.base + '.copy', lambda p=p: p.fresh().copy(), n=p.n))
            else:
                out.append(p.copy())
        s = self.__class__.__new__(self.__class__)
        object.__setattr__(s, 'traces', DList(out))
        for k, v in self.__dict__.items():
            if k not in ('traces', '_birth'):
                object.__setattr__(s, k, v)
        return s

    def __copy__(self):
        s = self.__class__.__new__(self.__class__)
        for k, v in self.__dict__.items():
            object.__setattr__(s, k, v)
        newborn(s)
        return s

    def __deepcopy__(self, memo):
        return self.copy()

    def __eq__(self, o):
        return self is o
    __hash__ = None

    def all_traces(self, name, args, f):
        """an obspy method applied to every trace"""
        E().log.append((name, self) + tuple(args))
        for p in parts_of(self.traces):
            if isinstance(p, Gap):
                p.events = getattr(p, 'events', []) + [(name,) + tuple(args)]
            else:
                f(p)
        return self

    def filter(self, type, *args, **options):
        return self.all_traces('filter', (type, options), lambda t: t.filter(type, *args, **options))

    def taper(self, *a, **k):
        return self.all_traces('taper', a + (k,), lambda t: t.taper(*a, **k))

    def detrend(self, *a, **k):
        return self.all_traces('detrend', a + (k,), lambda t: t.detrend(*a, **k))

    def decimate(self, *a, **k):
        return self.all_traces('decimate', a + (k,), lambda t: t.decimate(*a, **k))

    def resample(self, *a, **k):
        return self.all_traces('resample', a + (k,), lambda t: t.resample(*a, **k))

    def interpolate(self, *a, **k):
        return self.all_traces('interpolate', a + (k,), lambda t: t.interpolate(*a, **k))

    def normalize(self, *a, **k):
        return self.all_traces('normalize', a + (k,), lambda t: t.normalize(*a, **k))

    def trim(self, starttime=None, endtime=None, pad=False, nearest_sample=True, fill_value=None):
        self.all_traces('trim', (starttime, endtime, pad, nearest_sample, fill_value),
                        lambda t: t.trim(starttime, endtime, pad, nearest_sample, fill_value))
        return self

    def rotate(self, method, back_azimuth=None, inclination=None, **k):
        """headers and number of traces stay, samples become unknown; component letters follow the method"""
        h = getattr(E(), 'rotate_hook', None)
        if h is not None:
            return h(self, method)
        return self.all_traces('rotate', (method, back_azimuth, inclination, k),
                               lambda t: t.renew('rotate', (method,), keep_length=True))

    def merge(self, *a, **k):
        E().log.append(('merge', self) + a)
        return self

    def sort(self, keys=('network', 'station', 'location', 'channel', 'starttime', 'endtime'), reverse=False):
        E().log.append(('sort', self, keys, reverse))
        h = getattr(E(), 'sort_hook', None)
        if h is not None:
            return h(self, keys, reverse)
        if has_gap(self.traces):
            raise Unsupported('sort of unknown traces')
        ps = list(self.traces.parts)
        self.traces = b_sorted(DList(ps), key=lambda t: tuple(t.stats[k] for k in keys), reverse=reverse)
        return self

    def select(self, network=None, station=None, location=None, channel=None, sampling_rate=None, npts=None,
               component=None, id=None):
        h = getattr(E(), 'select_hook', None)
        if h is not None:
            return h(self, channel=channel, component=component, id=id)
        raise Unsupported('select')

    def write(self, filename, format=None, **kw):
        E().log.append(('write', self, filename, format, kw))
        h = getattr(E(), 'write_hook', None)
        if h is not None:
            h(self, filename, format, kw)

    def __str__(self, extended=False):
        return SStr([Atom('stream', OpaqueObj('stream'))])


def gps2dist_azimuth(lat1, lon1, lat2, lon2, a=6378137.0, f=0.0033528106647474805):
    """distance in m, azimuth 1->2, azimuth 2->1: functions of the four coordinates"""
    args = [lat1, lon1, lat2, lon2]
    for x in args:
        if not isnumber(x):
            raise TypeError('coordinate')
    return (uapp('gps2dist', *args), uapp('gps2az12', *args), uapp('gps2az21', *args))


class _Arrival(Sym):
    def __init__(self, model, depth, dist, phase, k):
        self.args = (model, depth, dist, phase, k)

    def _get(self, what):
        model, depth, dist, phase, k = self.args
        e = E()
        def make():
            return SNum(z3.Real(e.opaque_name('arr_' + what)))
        return find_congruent('arr_' + what, (), None, make, (model, lift(depth), lift(dist), phase, k))

    @property
    def time(self):
        return self._get('time')

    @property
    def incident_angle(self):
        return self._get('incident_angle')

    @property
    def ray_param_sec_degree(self):
        return self._get('ray_param_sec_degree')

    @property
    def ray_param(self):
        return self._get('ray_param')

    @property
    def takeoff_angle(self):
        return self._get('takeoff_angle')


class TauPyModel(object):
    def __init__(self, model='iasp91', **k):
        newborn(self)
        self.model = model

    def get_travel_times(self, source_depth_in_km, distance_in_degree=None, phase_list=('ttbasic',),
                         receiver_depth_in_km=0.0, ray_param_tol=1e-6):
        ph = list(phase_list)
        if len(ph) != 1 or isinstance(phase_list, (str, SStr)):
            raise Unsupported('several phases')
        if not (isinstance(receiver_depth_in_km, float) and receiver_depth_in_km == 0):
            raise Unsupported('receiver depth')
        e = E()
        args = (self.model, source_depth_in_km, distance_in_degree, ph[0])
        e.log.append(('get_travel_times',) + args)
        # zero, one or several arrivals
        n = e.choose(3, 'arrivals')
        e.narr = n
        return DList([_Arrival(self.model, source_depth_in_km, distance_in_degree, ph[0], k) for k in range(n)])


# ================================================================ other modules
class _Warnings(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'warnings')

    @staticmethod
    def warn(msg, *a, **k):
        E().log.append(('warn', msg))

    catch_warnings = _Null

    @staticmethod
    def simplefilter(*a, **k):
        pass

    filterwarnings = simplefilter


def _floor(x):
    return sfloor(x) if isinstance(x, Sym) else _math.floor(x)


def _ceil(x):
    return -sfloor(-x) if isinstance(x, Sym) else _math.ceil(x)


class Geodesic(object):
    class WGS84(object):
        @staticmethod
        def Direct(lat, lon, azi, s12, outmask=None):
            args = [lift(v) for v in (lat, lon, azi, s12)]
            return DDict([('lat1', lat), ('lon1', lon), ('azi1', azi), ('s12', s12),
                          ('lat2', uapp('geod_lat', *args)), ('lon2', uapp('geod_lon', *args)),
                          ('azi2', uapp('geod_azi', *args))])


def product(*its, **k):
    if not any(hasattr(i, '__parts__') and has_gap(i) for i in its):
        return DList(list(_itertools.product(*[list(parts_of(i)) for i in its], **k)))
    if len(its) != 2 or k:
        raise Unsupported('product')

    def gen():
        for a in DV.loop('product1', its[0]):
            for b in DV.loop('product2', its[1]):
                yield (a, b)
    return gen()


def defaultdict(factory=None, *a, **k):
    h = getattr(E(), 'defaultdict_hook', None)
    if h is not None:
        return h(factory)
    return DDefaultDict(factory, *a, **k)


def deco():
    """the decorator package: the caller receives the arguments bound to the signature, defaults applied"""
    import inspect
    import functools

    def decorate(func, caller, extras=()):
        sig = inspect.signature(func)

        @functools.wraps(func)
        def fun(*args, **kw):
            ba = sig.bind(*args, **kw)
            ba.apply_defaults()
            return caller(func, *(tuple(extras) + ba.args), **ba.kwargs)
        fun.__signature__ = sig
        fun.__caller__ = caller
        return fun

    def decorator(caller, _func=None):
        if _func is not None:
            return decorate(_func, caller)
        made = lambda func: decorate(func, caller)
        made.__caller__ = caller
        return made
    return _module('decorator', decorate=decorate, decorator=decorator)


class _Json(types.ModuleType):
    import json as _j
    JSONDecodeError = _j.JSONDecodeError
    JSONDecoder = _j.JSONDecoder

    def __init__(self):
        types.ModuleType.__init__(self, 'json')

    @staticmethod
    def dumps(obj, *, separators=None, default=None, **k):
        if k:
            raise Unsupported('json.dumps options')
        return SStr([Atom('json', JsonText(obj, separators))])

    @staticmethod
    def loads(s, **k):
        if isinstance(s, SStr) and len(s.pieces) == 1 and getattr(s.pieces[0], 'kind', '') == 'json':
            import copy
            return copy.deepcopy(s.pieces[0].term.obj)
        if isinstance(s, str):
            import json
            return DDict(json.loads(s, **k))
        raise Unsupported('json.loads')


class JsonText(object):
    def __init__(self, obj, sep):
        import copy
        self.obj, self.sep = copy.deepcopy(obj), sep


def namespace(**over):
    """module name -> stub"""
    numpy = NumpyStub()
    obspy_core = _module('obspy.core', AttribDict=AttribDict, Stream=Stream, Trace=Trace, UTCDateTime=UTCDateTime,
                         Stats=Stats)
    obspy = _module('obspy', Stream=Stream, Trace=Trace, UTCDateTime=UTCDateTime, core=obspy_core,
                    read=lambda *a, **k: _uns('obspy.read'))
    ns = {
        'numpy': numpy, 'numpy.fft': NP_FFT, 'numpy.linalg': NP_LINALG, 'numpy.ma': NP_MA,
        'obspy': obspy, 'obspy.core': obspy_core,
        'obspy.core.util': _module('obspy.core.util', AttribDict=AttribDict),
        'obspy.geodetics': _module('obspy.geodetics', gps2dist_azimuth=gps2dist_azimuth),
        'obspy.taup': _module('obspy.taup', TauPyModel=TauPyModel),
        'obspy.io.sac.util': _module('obspy.io.sac.util'), 'obspy.io': _module('obspy.io'),
        'pkg_resources': _module('pkg_resources', resource_filename=lambda p, f: '/rf-resource/%s/%s' % (p, f)),
        'scipy': _module('scipy'),
        'scipy.fftpack': _module('scipy.fftpack', fft=np_fft_fft, ifft=np_fft_ifft, next_fast_len=next_fast_len),
        'scipy.fft': _module('scipy.fft', fft=np_fft_fft, ifft=np_fft_ifft, next_fast_len=next_fast_len),
        'scipy.signal': _module('scipy.signal', correlate=correlate, detrend=lambda *a, **k: _uns('detrend')),
        'scipy.linalg': _module('scipy.linalg', solve_toeplitz=solve_toeplitz_scipy),
        'toeplitz': _module('toeplitz', sto_sl=sto_sl),
        'math': _module('math', floor=_floor, ceil=_ceil, sqrt=lambda x: core.sqrt(x), pi=_math.pi,
                        isnan=np_isnan, radians=np_radians, cos=np_cos, sin=np_sin, exp=np_exp),
        'warnings': _Warnings(),
        'geographiclib.geodesic': _module('geographiclib.geodesic', Geodesic=Geodesic),
        'itertools': _module('itertools', product=product),
        'collections': _module('collections', defaultdict=defaultdict, OrderedDict=DDict),
        'collections.abc': __import__('collections.abc', fromlist=['x']),
        'json': _Json(),
        'tqdm': None,
        'decorator': deco(),
    }
    ns['numpy'].__dict__['max'] = np_max
    ns.update(over)
    return ns
