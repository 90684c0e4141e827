"""Mechanical source transformation and module loader.

The functions that are verified are the ones in /repo/rf: their source is read on every run, parsed, rewritten by
the rules below and executed.  Nothing is dropped.  Rules:
  for T in X            for T in dv__.loop(site, X), loop-carried variables are poisoned at gaps
  while C               Hoare invariant if the contract supplies one, native loop otherwise
  [e for t in X if c]   dv__.comp(...)          (e for ...) dv__.gen(...)
  a in b, a % b, f'..', s.format(..), s.join(..), [..], {..}   calls of dv__ (native for native values)
  builtins              symbolic versions (native for native values)
  import                transformed modules of rf, library contracts of dv.stubs, or the real module
"""
import ast
import builtins
import os
import sys
import types

from dv import core
from dv.core import Unsupported

REPO = os.environ.get('VERIF_REPO', '/repo')


def dv(attr):
    return ast.Attribute(ast.Name('dv__', ast.Load()), attr, ast.Load())


def call(attr, *args, **kw):
    return ast.Call(dv(attr), list(args), [ast.keyword(k, v) for k, v in kw.items()])


class Assigned(ast.NodeVisitor):
    """names bound in a statement list (not in nested scopes)"""

    def __init__(self):
        self.names = []

    def add(self, n):
        if n not in self.names:
            self.names.append(n)

    def visit_Name(self, node):
        if isinstance(node.ctx, (ast.Store, ast.Del)):
            self.add(node.id)

    def visit_FunctionDef(self, node):
        self.add(node.name)

    def visit_Lambda(self, node):
        pass

    def visit_ListComp(self, node):
        for g in node.generators:
            self.visit(g.iter)
    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)

    def visit_Import(self, node):
        for a in node.names:
            self.add((a.asname or a.name).split('.')[0])
    visit_ImportFrom = visit_Import

    def visit_Subscript(self, node):
        if isinstance(node.ctx, ast.Store):
            b = node.value
            while isinstance(b, (ast.Subscript, ast.Attribute)):
                b = b.value
            if isinstance(b, ast.Name) and self.stores:
                self.add(b.id)
        self.generic_visit(node)
    stores = False


def assigned(stmts, stores=False):
    a = Assigned()
    a.stores = stores
    for s in stmts:
        a.visit(s)
    return a.names


class X(ast.NodeTransformer):
    def __init__(self, module):
        self.module = module
        self.scope = []
        self.sites = 0
        self.whiles = {}
        self.fors = {}
        self.tmp = 0
        self.globals_ = []
        self.nonlocals = []

    def site(self, node):
        self.sites += 1
        return ast.Constant('%s:%s:%d' % (self.module, '.'.join(self.scope), self.sites))

    # -- scopes
    def visit_FunctionDef(self, node):
        self.scope.append(node.name)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        node.body = self.body(node.body)
        self.scope.pop()
        return node

    def visit_ClassDef(self, node):
        self.scope.append(node.name)
        node.bases = [self.visit(b) for b in node.bases]
        node.body = self.body(node.body)
        node.decorator_list = [self.visit(d) for d in node.decorator_list] + [dv('hookclass')]
        self.scope.pop()
        return node

    def body(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            out += r if isinstance(r, list) else [r]
        return out

    def visit_Lambda(self, node):
        node.args = self.visit(node.args)
        node.body = self.visit(node.body)
        return node

    # -- loops
    def visit_For(self, node):
        names = assigned([node.target_stmt] if hasattr(node, 'target_stmt') else []) + []
        a = Assigned()
        a.visit(node.target)
        for s in node.body:
            a.visit(s)
        names = [n for n in a.names]
        site = self.site(node)
        fn = '.'.join(self.scope)
        k = self.fors.get(fn, 0)
        self.fors[fn] = k + 1
        key = ast.Constant('%s.%s:%d' % (self.module, fn, k))
        it = call('loop', site, self.visit(node.iter), key, ast.Call(ast.Name('locals', ast.Load()), [], []))
        body = self.body(node.body)
        tgt = Assigned()
        tgt.visit(node.target)
        inner = [n for n in names if n not in tgt.names]

        def poison(ns, fn):
            if not ns:
                return []
            return [ast.If(call(fn, site), [ast.Assign([ast.Name(n, ast.Store())], call('loopvar', site, ast.Constant(n)))
                                              for n in ns], [])]
        # variables of the body that may be read before they are assigned in an iteration
        new = ast.For(self.visit(node.target), it, poison(inner, 'poisoned') + body, self.body(node.orelse))
        return [new] + poison(names, 'poisoned_after')

    def visit_While(self, node):
        fn = '.'.join(self.scope)
        k = self.whiles.get(fn, 0)
        self.whiles[fn] = k + 1
        key = ast.Constant('%s.%s:%d' % (self.module, fn, k))
        names = assigned(node.body, stores=True)
        self.tmp += 1
        tmp = 'dv_w%d' % self.tmp
        loc = ast.Call(ast.Name('locals', ast.Load()), [], [])
        enter = ast.Assign([ast.Name(tmp, ast.Store())],
                           call('while_enter', key, loc, ast.Constant(tuple(names))))
        havoc = ast.If(ast.Compare(ast.Name(tmp, ast.Load()), [ast.IsNot()], [ast.Constant(None)]),
                       [ast.Assign([ast.Name(n, ast.Store())],
                                   ast.Subscript(ast.Name(tmp, ast.Load()), ast.Constant(n), ast.Load()))
                        for n in names] or [ast.Pass()], [])
        back = ast.Expr(call('while_back', key, ast.Name(tmp, ast.Load()), loc))
        new = ast.While(self.visit(node.test), self.body(node.body) + [back], self.body(node.orelse))
        return [enter, havoc, new]

    # -- comprehensions
    def lam(self, target, expr):
        if isinstance(target, ast.Name):
            args = ast.arguments([], [ast.arg(target.id)], None, [], [], None, [])
            return ast.Lambda(args, expr)
        names = []

        def flat(t):
            if isinstance(t, ast.Name):
                if t.id in names:
                    # repeated name like _: keep the last one
                    self.tmp += 1
                    nm = 'dv_u%d' % self.tmp
                    names.append(nm)
                    return ast.Name(nm, ast.Store())
                names.append(t.id)
                return t
            raise SyntaxError('nested target')
        if not isinstance(target, ast.Tuple):
            raise SyntaxError('comprehension target')
        for t in target.elts:
            flat(t)
        inner = ast.Lambda(ast.arguments([], [ast.arg(n) for n in names], None, [], [], None, []), expr)
        self.tmp += 1
        v = 'dv_t%d' % self.tmp
        return ast.Lambda(ast.arguments([], [ast.arg(v)], None, [], [], None, []),
                          ast.Call(inner, [ast.Starred(call('unpack', ast.Name(v, ast.Load()),
                                                            ast.Constant(len(names))), ast.Load())], []))

    def comp(self, kind, gens, elt):
        g = gens[0]
        conds = [self.visit(c) for c in g.ifs]
        cond = self.lam(g.target, conds[0] if len(conds) == 1 else ast.BoolOp(ast.And(), conds)) \
            if conds else ast.Constant(None)
        if len(gens) > 1:
            e = self.comp('list', gens[1:], elt)
            inner = call('comp', self.site(elt), ast.Constant('flat'), self.visit(g.iter), cond,
                         self.lam(g.target, e))
            if kind == 'list':
                return inner
            return call('comp', self.site(elt), ast.Constant(kind), inner, ast.Constant(None),
                        self.lam(ast.Name('dv_e', ast.Store()), ast.Name('dv_e', ast.Load())))
        return call('comp', self.site(elt), ast.Constant(kind), self.visit(g.iter), cond,
                    self.lam(g.target, self.visit(elt)))

    def visit_ListComp(self, node):
        return self.comp('list', node.generators, node.elt)

    def visit_GeneratorExp(self, node):
        return self.comp('gen', node.generators, node.elt)

    def visit_SetComp(self, node):
        return self.comp('set', node.generators, node.elt)

    def visit_DictComp(self, node):
        return self.comp('dict', node.generators, ast.Tuple([node.key, node.value], ast.Load()))

    # -- expressions
    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            c = call('contains', node.comparators[0], node.left)
            return c if isinstance(node.ops[0], ast.In) else ast.UnaryOp(ast.Not(), c)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return call('mod', node.left, node.right)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = ast.Constant('') if v.format_spec is None else self.visit(v.format_spec)
                parts.append(ast.Tuple([self.visit(v.value), ast.Constant(v.conversion), spec], ast.Load()))
        return call('fstr', ast.Tuple(parts, ast.Load()))

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr in ('format', 'join', 'startswith', 'endswith', 'split',
                                                       'count', 'replace'):
            return ast.Call(dv('smethod'), [f.value, ast.Constant(f.attr)] + node.args, node.keywords)
        if isinstance(f, ast.Name) and f.id in ('locals',):
            return node
        return node

    def visit_List(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return call('dlist', node)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if any(k is None for k in node.keys):
            # {**a, 'k': v}: sequence of updates
            items = [ast.Tuple([k if k is not None else dv('STAR'), v], ast.Load())
                     for k, v in zip(node.keys, node.values)]
        else:
            items = [ast.Tuple([k, v], ast.Load()) for k, v in zip(node.keys, node.values)]
        return call('ddict', ast.Tuple(items, ast.Load()))

    def visit_Set(self, node):
        self.generic_visit(node)
        return call('dset', ast.Tuple(node.elts, ast.Load()))

    def visit_Starred(self, node):
        self.generic_visit(node)
        return node

    def visit_arguments(self, node):
        self.generic_visit(node)
        return node


def transform(src, module, filename):
    tree = ast.parse(src, filename)
    x = X(module)
    tree.body = x.body(tree.body)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec')


class Loader(object):
    """loads rf modules freshly; `stubs`: module name -> module (library contracts)"""

    def __init__(self, stubs, replace=None):
        self.stubs = stubs
        self.modules = {}
        self.code = {}
        self.replace = replace or {}

    def source(self, name):
        rel = name.replace('.', os.sep)
        for f in (rel + '.py', os.path.join(rel, '__init__.py')):
            p = os.path.join(REPO, f)
            if os.path.exists(p):
                return p
        raise ImportError(name)

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        path = self.source(name)
        if name not in CODE:
            CODE[name] = transform(open(path, encoding='utf-8').read(), name, path)
        m = types.ModuleType(name)
        m.__file__ = path
        self.modules[name] = m
        if '.' in name and name != 'rf':
            pass
        from dv import stubs
        d = m.__dict__
        d['dv__'] = stubs.DV
        b = dict(builtins.__dict__)
        b['__import__'] = self.imp
        d['__builtins__'] = b
        d.update(stubs.BUILTINS)
        if name == 'rf':
            m.__path__ = [os.path.dirname(path)]
        d['__name__'] = name
        exec(CODE[name], d)
        if '.' in name:
            parent, _, last = name.rpartition('.')
            if parent in self.modules:
                setattr(self.modules[parent], last, m)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            raise Unsupported('relative import')
        if name == 'rf' or name.startswith('rf.'):
            if name == 'rf.tests' or name.startswith('rf.tests'):
                raise ImportError(name)
            m = self.load(name)
            for f in fromlist or ():
                if not hasattr(m, f):
                    try:
                        setattr(m, f, self.load(name + '.' + f))
                    except ImportError:
                        pass
            if fromlist:
                return m
            return self.load(name.split('.')[0])
        if name in self.stubs:
            m = self.stubs[name]
            if m is None:
                raise ImportError('No module named %s' % name)
            if fromlist or '.' not in name:
                return m
            return self.stubs[name.split('.')[0]]
        if name.split('.')[0] in REAL:
            __import__(name)
            if fromlist:
                return sys.modules[name]
            return sys.modules[name.split('.')[0]]
        raise Unsupported('import of %s' % name)


CODE = {}
REAL = {'copy', 'operator', 'functools', 'inspect', 'os', 'shutil', 'sys', 'argparse', 'importlib', 'time', 'string',
        '__future__', 'typing', 'abc', 'contextlib', 'logging', 're', 'numbers', 'glob', 'pathlib', 'types'}
