"""Deductive engine: the real source of /repo/rf is executed by CPython on symbolic values.

Every branch whose condition is not decided by the path condition forks the path (re-execution with a
recorded decision prefix); sequences of unknown length are written as parts, single *representatives* and
*gaps* (any number of unknown elements), and a loop over a gap is verified by one iteration on an arbitrary
element after an arbitrary number of earlier ones (see ``loop``).  Contracts call ``E.prove``; each call is one
verification condition  path condition => claim  for z3 (cvc5 as second back end).
"""
import time
import traceback
from fractions import Fraction

import contextlib
import z3

from dv.poly import Normaliser, TooBig


# ---------------------------------------------------------------- control flow of the engine
class EngineExc(BaseException):
    pass


class PathEnd(EngineExc):
    """end of this path (infeasible, or one loop iteration verified)"""


class Unsupported(EngineExc):
    """the verifier cannot follow the code here"""


class OutOfTime(EngineExc):
    pass


class _Poison(object):
    def _bad(self, *a, **k):
        raise Unsupported('value carried from one loop iteration to the next')
    __getattr__ = __call__ = __getitem__ = __iter__ = __bool__ = __add__ = __radd__ = __sub__ = _bad
    __rsub__ = __mul__ = __rmul__ = __eq__ = __ne__ = __lt__ = __gt__ = __le__ = __ge__ = __len__ = _bad
    __contains__ = __neg__ = __truediv__ = __rtruediv__ = __setitem__ = __hash__ = _bad


POISON = _Poison()


def RV(x):
    if isinstance(x, bool):
        return z3.RealVal(int(x))
    if isinstance(x, int):
        return z3.RealVal(x)
    if isinstance(x, Fraction):
        return z3.Q(x.numerator, x.denominator)
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported('float %r in symbolic arithmetic' % x)
        return z3.RealVal(repr(x))
    raise Unsupported('no real: %r' % (x,))


def simp(t):
    return z3.simplify(t)


class Engine(object):
    def __init__(self, budget=100., query_ms=4000, slow=1):
        self.slow = slow
        self.deadline = time.time() + budget
        self.query_ms = query_ms
        self.vcs = {}          # (contract, name, path) -> dict
        self.undecided = []    # dicts
        self.covers = {}
        self.solver_s = 0.
        self.queries = 0
        self.paths = 0
        self.assumptions = set()
        self.back_ends = {}
        self.contract = None
        self.opaque = set()    # names of uninterpreted symbols that stand for library results
        self.reset([])

    # ------------------------------------------------------------ path exploration
    def reset(self, prefix):
        self.prefix = prefix
        self.taken = []
        self.pc = []
        self.loose, self.loose_bounds = set(), set()
        self.solver = z3.Solver()
        self.solver.set('timeout', self.query_ms)
        self.solver.set('random_seed', self.slow)
        self.lin = z3.Solver()         # the linear part of the path condition
        self.lin.set('timeout', 1000 * self.slow)
        self.nonlin = False
        self.linmemo = {}
        self.names = {}
        self.symage = {}
        self.clock = 0
        self.gapcount = 0
        self.witnesses = []
        self.phantoms = []
        self.loops = {}
        self.hooks = []
        self.universal = []
        self.defs, self.parities, self.unsure = [], {}, set()
        self.instances = {}
        self.hints = []
        self.while_specs = {}
        self.for_specs = {}
        self.warned = []
        self.norm = Normaliser()
        self.reds = {}
        self.gctx = []         # stack of running gap iterations
        self.objs = {}
        self.eqmemo = {}
        self.log = []
        self.sqrt_seen = set()
        self.keep = []
        self.blocks = []
        self.slices = []
        self.nonzeros = []
        for k in ('append_fresh', 'gap_array', 'gap_mean', 'trim_hook', 'rotate_hook', 'sort_hook', 'select_hook', 'write_hook',
                  'loadtxt', 'iter_end', 'defaultdict_hook', 'range_reps'):
            self.__dict__.pop(k, None)

    def explore(self, contract, fn, max_paths=4000):
        """run fn(E) on all paths"""
        self.contract = contract
        self.registry = {}
        self.tags = {}
        self.work = [()]
        n = 0
        while self.work:
            p = self.work.pop()
            n += 1
            if time.time() > self.deadline or n > max_paths:
                self.undecided.append({'obligation': contract, 'reason': 'out of time or paths (%d paths)' % n})
                return
            self.reset(list(p))
            self.paths += 1
            try:
                fn(self)
            except PathEnd:
                pass
            except Unsupported as ex:
                self.undecided.append({'obligation': '%s/path %s' % (contract, self.pathstr()),
                                       'reason': 'unsupported: %s (%s)' % (ex, where(ex))})
                if len(self.undecided) > 30:
                    return
            except OutOfTime:
                self.undecided.append({'obligation': contract, 'reason': 'out of time'})
                return
            except RecursionError:
                self.undecided.append({'obligation': contract, 'reason': 'recursion'})
                return
            except Exception as ex:
                self.undecided.append({'obligation': '%s/path %s' % (contract, self.pathstr()),
                                       'reason': 'exception %s: %s (%s)' % (type(ex).__name__, ex, where(ex))})
                if len(self.undecided) > 30:
                    return

    def pathstr(self):
        return ''.join(str(int(x)) for x in self.taken) or '-'

    def check_time(self):
        if time.time() > self.deadline:
            raise OutOfTime()

    def sat(self, c, ms=None):
        """z3 result of pc and c"""
        self.check_time()
        t0 = time.time()
        self.queries += 1
        if ms:
            self.solver.set('timeout', ms * self.slow)
        self.solver.push()
        try:
            self.solver.add(c)
            r = self.solver.check()
            self.last_model = self.solver.model() if r == z3.sat else None
        finally:
            self.solver.pop()
            if ms:
                self.solver.set('timeout', self.query_ms)
        self.solver_s += time.time() - t0
        return r

    def linear(self, c):
        """no products, quotients, roots, library functions in a formula"""
        todo, seen = [c], set()
        while todo:
            x = todo.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if self.linmemo.get(i) is not None and self.linmemo[i][0] is False:
                return False
            if z3.is_app(x):
                k = x.decl().kind()
                bad = (k == z3.Z3_OP_MUL and sum(not z3.is_rational_value(y) and not z3.is_int_value(y)
                                                 for y in x.children()) > 1 or
                       k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not (
                           z3.is_rational_value(x.arg(1)) or z3.is_int_value(x.arg(1))) or
                       k == z3.Z3_OP_POWER or
                       k == z3.Z3_OP_UNINTERPRETED and x.decl().name() == 'lib:sqrt')
                if bad:
                    self.linmemo[i] = (False, x)
                    self.linmemo[c.get_id()] = (False, c)
                    return False
            elif not z3.is_var(x):
                return False
            todo.extend(x.children())
        return True

    def quick(self, c):
        """is the formula refuted by the linear part of the path condition; `sat` is meant relative to that part"""
        self.check_time()
        t0 = time.time()
        self.queries += 1
        self.lin.push()
        try:
            self.lin.add(c)
            r = self.lin.check()
        finally:
            self.lin.pop()
        self.solver_s += time.time() - t0
        return r

    def infeasible(self, c, ms=1500):
        if not self.nonlin:
            return self.sat(c, ms) == z3.unsat
        if self.linear(c):
            r = self.quick(c)
            if r == z3.unsat:
                return True
            return self.sat(c, 150) == z3.unsat
        return self.sat(c, ms) == z3.unsat

    def entails(self, c, ms=1500):
        c = simp(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return self.infeasible(z3.BoolVal(True), ms)
        return self.infeasible(z3.Not(c), ms)

    def assume(self, c):
        if isinstance(c, SBool):
            c = c.t
        if c is True:
            return
        if c is False:
            raise PathEnd()
        c = simp(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathEnd()
        self.pc.append(c)
        self.solver.add(c)
        for x in (c.children() if z3.is_and(c) else [c]):
            if self.linear(x):
                self.lin.add(x)
            else:
                self.nonlin = True

    @contextlib.contextmanager
    def under(self, cond):
        """what is assumed inside holds if `cond` holds (values that are only used where cond holds)"""
        cond = simp(cond.t if isinstance(cond, SBool) else cond)
        if self.entails(cond):
            yield
            return
        n, nonlin, nd = len(self.pc), self.nonlin, len(self.defs)
        self.solver.push()
        self.lin.push()
        done = False
        try:
            self.assume(cond)
            yield
            done = True
        finally:
            new = self.pc[n + 1:] if len(self.pc) > n else []
            del self.pc[n:]
            self.solver.pop()
            self.lin.pop()
            self.nonlin = nonlin
            for d in self.defs[nd:]:
                self.solver.add(d)
            if done:
                for c in new:
                    self.assume(z3.Implies(cond, c))

    def decide(self, c):
        c = simp(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = len(self.taken)
        self.tag('d')
        if k < len(self.prefix):
            d = self.prefix[k]
        else:
            if self.infeasible(c):
                d, both = False, False
            elif self.infeasible(z3.Not(c)):
                d, both = True, False
            else:
                d, both = True, True
            if not both:
                # forced: still recorded so that re-execution is cheap
                self.taken.append(d)
                self.assume(c if d else z3.Not(c))
                return d
            self.work.append(tuple(self.taken) + (False,))
        self.taken.append(d)
        self.assume(c if d else z3.Not(c))
        return bool(d)

    def tag(self, kind):
        """exploration must be deterministic: the same decision at the same place"""
        key = tuple(self.taken)
        if self.tags.setdefault(key, kind) != kind:
            raise Unsupported('exploration is not deterministic')

    def choose(self, n, what=''):
        """free n-ary choice (case split of a contract)"""
        k = len(self.taken)
        self.tag(n)
        if k < len(self.prefix):
            d = self.prefix[k]
        else:
            d = 0
            for i in range(n - 1, 0, -1):
                self.work.append(tuple(self.taken) + (i,))
        self.taken.append(d)
        return d

    # ------------------------------------------------------------ symbols
    def name(self, base):
        k = self.names.get(base, 0)
        self.names[base] = k + 1
        n = base if k == 0 else '%s!%d' % (base, k)
        self.symage[n] = self.clock
        return n

    def tick(self):
        self.clock += 1
        return self.clock

    def real(self, base):
        return SNum(z3.Real(self.name(base)))

    def int(self, base, lo=None, hi=None):
        t = z3.Int(self.name(base))
        if lo is not None:
            self.assume(t >= lo)
        if hi is not None:
            self.assume(t <= hi)
        return SNum(t)

    def bool(self, base):
        return SBool(z3.Bool(self.name(base)))

    def opaque_name(self, base):
        n = self.name(base)
        self.opaque.add(n)
        return n

    # ------------------------------------------------------------ obligations
    def cover(self, name):
        """vacuity guard: the path condition here must be satisfiable"""
        key = self.contract + '/' + name
        if self.covers.get(key) is True:
            return
        r = self.sat(z3.BoolVal(True))
        self.covers[key] = self.covers.get(key, False) or r == z3.sat

    def prove(self, name, c, detail=''):
        key = (self.contract, name, self.pathstr())
        if key in self.vcs and self.vcs[key]['status'] != 'discharged' and False:
            return
        k = 0
        while key in self.vcs and self.vcs[key]['run'] is self.solver:
            k += 1
            key = (self.contract, '%s#%d' % (name, k), self.pathstr())
        st, why, be = self.discharge(c)
        if st == 'failed' and self.guessed(c):
            st, why = 'undecided', 'depends on how many elements a loop has put into a list; ' + why
        self.back_ends[be] = self.back_ends.get(be, 0) + (st == 'discharged')
        self.vcs[key] = {'obligation': '/'.join(key[:2]), 'path': key[2], 'status': st, 'reason': why,
                         'detail': detail, 'back_end': be, 'run': self.solver}
        return st == 'discharged'

    def fail(self, name, why):
        """an obligation that fails on this path if the path is feasible"""
        r = self.sat(z3.BoolVal(True))
        key = (self.contract, name, self.pathstr())
        st = 'discharged' if r == z3.unsat else 'failed' if r == z3.sat else 'undecided'
        if st == 'failed' and self.guessed(z3.BoolVal(True)):
            st = 'undecided'
        self.vcs[key] = {'obligation': '/'.join(key[:2]), 'path': key[2], 'status': st,
                         'reason': why + ('; witness: %s' % model_str(self.last_model)
                                          if r == z3.sat else ''),
                         'detail': '', 'back_end': 'z3', 'run': self.solver}

    def guessed(self, c):
        """the path or the claim speaks about the inferred length of a list that a loop fills: this length is any
        number in the inferred invariant, so a countermodel need not be a run of the program"""
        if not self.loose:
            return False
        ts = [p for p in self.pc if p.get_id() not in self.loose_bounds]
        c = c.t if isinstance(c, SBool) else c
        return self.mentions(ts + ([c] if z3.is_expr(c) else []), self.loose)

    def mentions(self, ts, names):
        todo, seen = list(ts), set()
        while todo and names:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x):
                if x.decl().name() in names:
                    return True
                todo.extend(x.children())
        return False

    def parity(self, name, t, m):
        """sin(-x) = -sin(x), cos(-x) = cos(x) for this argument"""
        k = (name, t.get_id())
        if k in self.parities or (name, m.get_id()) in self.parities:
            return
        self.parities[k] = (t, m)
        f = ufn(name, 1)
        self.defs.append(f(t) == (-f(m) if name == 'sin' else f(m)))
        self.solver.add(self.defs[-1])

    def clean(self, extra):
        """no symbol standing for a library result in the cone of the formula"""
        seen = set()
        todo = list(extra)
        # cone of influence over shared symbols
        cone = set()

        def symbols(t):
            out, st, sn = set(), [t], set()
            while st:
                x = st.pop()
                if x.get_id() in sn:
                    continue
                sn.add(x.get_id())
                if z3.is_app(x):
                    if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        out.add(x.decl().name())
                    st.extend(x.children())
            return out
        for t in todo:
            cone |= symbols(t)
        parts = [(p, symbols(p)) for p in self.pc]
        if not extra:
            for p, s in parts:
                cone |= s
        changed = True
        while changed:
            changed = False
            for p, s in parts:
                if s & cone and not s <= cone:
                    cone |= s
                    changed = True
        return not any(s in self.opaque or s.startswith('lib:') and s != 'lib:sqrt' for s in cone)

    def discharge(self, c):
        """-> status, reason, back end"""
        if isinstance(c, SBool):
            c = c.t
        if c is True:
            return 'discharged', '', 'python'
        if c is False:
            r = self.sat(z3.BoolVal(True))
            if r == z3.unsat:
                return 'discharged', 'path infeasible', 'z3'
            if r == z3.sat and self.clean([]):
                return 'failed', 'claim is false; witness: %s' % model_str(self.last_model), 'z3'
            return ('failed' if r == z3.sat else 'undecided'), 'claim is false on this path; ' + model_str(self.last_model), 'z3'
        c0 = c
        c = simp(c)
        if z3.is_true(c):
            return 'discharged', '', 'z3'
        if self.by_normal_form(c0):
            return 'discharged', '', 'ring'
        r = self.sat(z3.Not(c), self.query_ms)
        if r == z3.unsat:
            return 'discharged', '', 'z3'
        if r == z3.sat:
            m = self.last_model
            if self.by_cases(c0):
                return 'discharged', '', 'ring'
            if self.clean([c]):
                return 'failed', 'countermodel: ' + model_str(m), 'z3'
            if self.mentions([c], self.unsure):
                return 'undecided', 'solver: unknown whether library calls have equal arguments', 'z3'
            return 'failed', 'refuted, with library functions uninterpreted: ' + model_str(m), 'z3'
        if self.by_cases(c0):
            return 'discharged', '', 'ring'
        r2 = self.cvc5(c)
        if r2 == 'unsat':
            return 'discharged', '', 'cvc5'
        return 'undecided', 'solver: unknown', 'z3'

    def by_cases(self, c, extra=(), budget=5):
        """equations by normal forms after case splits over the conditions of their if-then-else terms"""
        c = c.t if isinstance(c, SBool) else c
        extra = list(extra)
        while z3.is_implies(c):
            extra += c.arg(0).children() if z3.is_and(c.arg(0)) else [c.arg(0)]
            c = c.arg(1)
        goals = []
        for x in c.children() if z3.is_and(c) else [c]:
            if not (z3.is_eq(x) and z3.is_arith(x.arg(0))):
                return False
            goals.append(x)
        if self.conditional(goals) is None:
            return False
        self.splits = 60
        return self._by_cases(goals, {}, [x for x in extra if self.linear(x)], budget)

    def conditional(self, ts):
        """condition of an if-then-else inside, itself without if-then-else"""
        todo, seen = list(ts), set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_ITE:
                    inner = self.conditional([x.arg(0)])
                    return x.arg(0) if inner is None else inner
                todo.extend(x.children())
        return None

    def _by_cases(self, goals, known, extra, budget):
        goals = list(goals)
        while True:
            goals = [g for g in goals if not z3.is_true(g)]
            if not goals:
                return True
            c = self.conditional(goals)
            if c is None:
                return all(z3.is_eq(g) and z3.is_arith(g.arg(0)) and self.norm.equal(g.arg(0), g.arg(1)) for g in goals)
            self.splits -= 1
            if self.splits < 0:
                return False
            key, val = self.sign_key(c)
            if val is None and key in known:
                val = known[key]
            if val is None and self.linear(c):
                for v in (True, False):
                    if self.quick(z3.And(*(extra + [z3.Not(c) if v else c]))) == z3.unsat:
                        val = v
            if val is not None:
                goals = [z3.simplify(z3.substitute(g, (c, z3.BoolVal(val)))) for g in goals]
                continue
            if not budget:
                return False
            for v in (True, False):
                if not self._by_cases([z3.simplify(z3.substitute(g, (c, z3.BoolVal(v)))) for g in goals],
                                      dict(known, **{key: v}),
                                      extra + ([c if v else z3.Not(c)] if self.linear(c) else []), budget - 1):
                    return False
            return True

    def sign_key(self, c):
        """name of a condition, the same for p >= q and q <= p; its value if p - q is a sum of positive even powers"""
        neg = False
        while z3.is_not(c):
            c, neg = c.arg(0), not neg
        k = c.decl().kind() if z3.is_app(c) else None
        if k in (z3.Z3_OP_GE, z3.Z3_OP_LE) and not neg:
            a, b = (c.arg(0), c.arg(1)) if k == z3.Z3_OP_GE else (c.arg(1), c.arg(0))
            try:
                p = self.norm.add(self.norm.norm(a), self.norm.norm(b), -1)
            except TooBig:
                return 'c%d' % c.get_id(), None
            if all(f >= 0 and all(e % 2 == 0 for _, e in m) for m, f in p.items()):
                return None, True
            f = abs(p[min(p)])
            return 'ge' + repr(sorted((m, str(v / f)) for m, v in p.items())), None
        return ('n' if neg else 'c') + str(c.get_id()), None

    def by_normal_form(self, c):
        if z3.is_and(c):
            return all(self.by_normal_form(x) for x in c.children())
        if z3.is_eq(c) and z3.is_arith(c.arg(0)):
            return self.norm.equal(c.arg(0), c.arg(1))
        return False

    def cvc5(self, c):
        try:
            import cvc5
            s = z3.Solver()
            for p in self.pc + self.defs:
                s.add(p)
            s.add(z3.Not(c))
            txt = s.to_smt2()
            t0 = time.time()
            tm = cvc5.TermManager() if hasattr(cvc5, 'TermManager') else None
            sl = cvc5.Solver(tm) if tm else cvc5.Solver()
            sl.setOption('tlimit-per', str(self.query_ms))
            sl.setLogic('ALL')
            parser = cvc5.InputParser(sl)
            parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'vc')
            sm = parser.getSymbolManager()
            res = 'unknown'
            while True:
                cmd = parser.nextCommand()
                if cmd.isNull():
                    break
                out = cmd.invoke(sl, sm)
                for w in ('unsat', 'sat', 'unknown'):
                    if str(out).strip() == w:
                        res = w
            self.solver_s += time.time() - t0
            return res
        except Exception:
            return 'unknown'

    def forall_at(self, idx):
        """instantiate the universal facts of this path at an index"""
        for k, (lo, hi, f) in enumerate(list(self.universal)):
            t = simp(int_t(idx))
            if (k, t.get_id()) in self.instances:
                continue
            self.instances[(k, t.get_id())] = t
            self.assume(z3.Implies(z3.And(t >= int_t(lo), t < int_t(hi)), zb(f(SNum(t)))))

    # ------------------------------------------------------------ equality of values
    def eq(self, a, b):
        """z3 condition / bool for deep equality of two values"""
        return veq(a, b)

    # ------------------------------------------------------------ mutation / frame
    def mut(self, obj, kind, payload=None):
        """an object is about to be modified; returns False if the modification was recorded as an effect of a
        loop over a gap and handled"""
        if not self.gctx and not self.phantoms:
            return
        born = birth(obj)
        if born is not None and any(a < born <= b for a, b in self.phantoms):
            raise Unsupported('modification of an element at an index of unknown elements')
        for ctx in self.gctx:
            if born is None or born < ctx['start']:
                ctx['effect'](obj, kind, payload)


def where(ex):
    tb = traceback.extract_tb(ex.__traceback__)
    fr = [f for f in tb if '/rf/' in f.filename or 'contracts' in f.filename]
    f = (fr or tb)[-1]
    g = tb[-1]
    return '%s:%s, %s:%s' % (f.filename.split('/')[-1], f.lineno, g.filename.split('/')[-1], g.lineno)


def model_str(m, n=12):
    if m is None:
        return ''
    out = []
    try:
        for d in list(m.decls())[:40]:
            if d.arity() == 0:
                out.append('%s = %s' % (d.name(), m[d]))
            elif len(out) < n:
                out.append('%s = %s' % (d.name(), str(m[d]).replace('\n', ' ')[:80]))
    except Exception:
        pass
    return ', '.join(out[:n])


E = None   # current engine


def set_engine(e):
    global E
    E = e


def birth(obj):
    try:
        return object.__getattribute__(obj, '_birth')
    except AttributeError:
        try:
            return E.objs.get(id(obj))
        except Exception:
            return None


# ---------------------------------------------------------------- symbolic scalars
def is_sym(x):
    return isinstance(x, Sym)


class Sym(object):
    """base class of all symbolic values"""

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def zb(x):
    """z3 Bool of a Python/symbolic boolean"""
    if isinstance(x, SBool):
        return x.t
    if isinstance(x, SNum):
        return x.t != 0
    return z3.BoolVal(bool(x))


class SBool(Sym):
    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return E.decide(self.t)

    def __hash__(self):
        return 7

    def __eq__(self, o):
        if isinstance(o, (SBool, bool)):
            return SBool(self.t == zb(o))
        if isinstance(o, (int, float, SNum)):
            return self.num() == o
        return False

    def __ne__(self, o):
        return NOT(self == o)

    def num(self):
        return SNum(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

    def __and__(self, o):
        return SBool(z3.And(self.t, zb(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SBool(z3.Or(self.t, zb(o)))
    __ror__ = __or__

    def __invert__(self):
        return SBool(z3.Not(self.t))

    def __add__(self, o):
        return self.num() + o
    __radd__ = __add__

    def __mul__(self, o):
        return self.num() * o
    __rmul__ = __mul__

    def __repr__(self):
        return 'SBool(%s)' % self.t


def NOT(x):
    if isinstance(x, SBool):
        return SBool(z3.Not(x.t))
    return not x


def AND(*xs):
    ts = [zb(x) for x in xs]
    return SBool(z3.And(*ts)) if ts else SBool(z3.BoolVal(True))


def OR(*xs):
    ts = [zb(x) for x in xs]
    return SBool(z3.Or(*ts)) if ts else SBool(z3.BoolVal(False))


def IMPLIES(a, b):
    return SBool(z3.Implies(zb(a), zb(b)))


def lift(x):
    """number -> SNum"""
    if isinstance(x, SNum):
        return x
    if isinstance(x, SBool):
        return x.num()
    if isinstance(x, bool):
        return SNum(z3.IntVal(int(x)))
    if isinstance(x, int):
        return SNum(z3.IntVal(x))
    if isinstance(x, (float, Fraction)):
        return SNum(RV(x))
    if type(x).__module__ == 'numpy':
        return lift(x.item())
    raise Unsupported('no number: %s' % type(x).__name__)


def isnumber(x):
    return isinstance(x, (int, float, Fraction, SNum, SBool)) or (
        type(x).__module__ == 'numpy' and getattr(x, 'shape', None) == () and type(x).__name__ != 'str_')


def real_t(x):
    """z3 Real term"""
    t = lift(x).t
    return z3.ToReal(t) if z3.is_int(t) else t


def int_t(x):
    x = lift(x)
    if z3.is_int(x.t):
        return x.t
    raise Unsupported('integer expected')


def same_sort(a, b):
    if z3.is_int(a) and z3.is_int(b):
        return a, b
    return (z3.ToReal(a) if z3.is_int(a) else a), (z3.ToReal(b) if z3.is_int(b) else b)


def nan_or(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return z3.Or(a, b)


def is_val(t):
    return z3.is_int_value(t) or z3.is_rational_value(t)


class SNum(Sym):
    """integer or real number; nan: condition under which the value is not a number"""

    def __init__(self, t, nan=None):
        self.t = t
        if nan is not None:
            nan = simp(nan)
            if z3.is_false(nan):
                nan = None
        self.nan = nan

    def __hash__(self):
        return 7

    def isint(self):
        return z3.is_int(self.t)

    def const(self):
        t = simp(self.t)
        if z3.is_int_value(t):
            return t.as_long()
        if z3.is_rational_value(t):
            return t.as_fraction()
        return None

    def _arith(self, o, f):
        if not isnumber(o):
            return NotImplemented
        o = lift(o)
        a, b = same_sort(self.t, o.t)
        return SNum(f(a, b), nan_or(self.nan, o.nan))

    def __add__(self, o):
        if isinstance(o, complex):
            return SCplx(self, 0) + o
        return self._arith(o, lambda a, b: a + b)

    def __radd__(self, o):
        if isinstance(o, complex):
            return SCplx(self, 0) + o
        return self._arith(o, lambda a, b: b + a)

    def __sub__(self, o):
        if isinstance(o, complex):
            return SCplx(self, 0) - o
        return self._arith(o, lambda a, b: a - b)

    def __rsub__(self, o):
        if isinstance(o, complex):
            return SCplx.of(o) - self
        return self._arith(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple)):
            raise Unsupported('repetition by a symbolic number')
        if isinstance(o, complex):
            return SCplx.of(o) * self
        return self._arith(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self.__mul__(o)

    @staticmethod
    def _div(a, b, scalar=True):
        a, b = lift(a), lift(b)
        if scalar:
            z = b.t == 0
            if b.nan is not None:
                z = z3.And(z3.Not(b.nan), z)
            z = simp(z)
            if not z3.is_false(z) and not E.entails(z3.Not(z)):
                if E.decide(z):
                    raise ZeroDivisionError('division by zero')
        x, y = (z3.ToReal(t) if z3.is_int(t) else t for t in (a.t, b.t))
        return SNum(x / y, nan_or(a.nan, b.nan))

    def __truediv__(self, o):
        if isinstance(o, complex):
            return SCplx(self, 0) / o
        if not isnumber(o):
            return NotImplemented
        return self._div(self, o)

    def __rtruediv__(self, o):
        if isinstance(o, complex):
            return SCplx.of(o) / self
        if not isnumber(o):
            return NotImplemented
        return self._div(o, self)

    @staticmethod
    def _floordiv(a, b):
        a, b = lift(a), lift(b)
        if a.nan is not None or b.nan is not None:
            raise Unsupported('floor division of nan')
        if not E.entails(b.t != 0):
            if E.decide(b.t == 0):
                raise ZeroDivisionError('division by zero')
        if a.isint() and b.isint():
            # z3: a == b*div + mod, 0 <= mod < |b|; equals floor for b > 0
            if E.entails(b.t > 0):
                return SNum(a.t / b.t)
            q = z3.ToInt(real_t(a) / real_t(b))
            return SNum(q)
        return SNum(z3.ToReal(z3.ToInt(real_t(a) / real_t(b))))

    def __floordiv__(self, o):
        return self._floordiv(self, o)

    def __rfloordiv__(self, o):
        return self._floordiv(o, self)

    def __mod__(self, o):
        if not isnumber(o):
            return NotImplemented
        return self - SNum._floordiv(self, o) * o

    def __rmod__(self, o):
        return lift(o) - SNum._floordiv(o, self) * self

    def __divmod__(self, o):
        q = SNum._floordiv(self, o)
        return q, self - q * o

    def __pow__(self, o):
        o2 = lift(o)
        k = o2.const()
        if k is not None and Fraction(k).denominator == 1:
            k = int(k)
            if k == 0:
                return SNum(z3.IntVal(1) if self.isint() else z3.RealVal(1))
            r = self
            for _ in range(abs(k) - 1):
                r = r * self
            if k < 0:
                r = SNum._div(1, r, scalar=False)
            return r
        if k == Fraction(1, 2):
            return sqrt(self)
        return SNum(ufn('pow', 2)(real_t(self), real_t(o2)), nan_or(self.nan, o2.nan))

    def __rpow__(self, o):
        return SNum(ufn('pow', 2)(real_t(o), real_t(self)), self.nan)

    def __neg__(self):
        return SNum(-self.t, self.nan)

    def __pos__(self):
        return self

    def __abs__(self):
        return SNum(z3.If(self.t >= 0, self.t, -self.t), self.nan)

    def _cmp(self, o, f, ne=False):
        if isinstance(o, SUTC):
            return NotImplemented
        if not isnumber(o):
            if o is None or isinstance(o, (str, SStr, tuple, list)):
                return NotImplemented
            return NotImplemented
        o = lift(o)
        a, b = same_sort(self.t, o.t)
        r = f(a, b)
        n = nan_or(self.nan, o.nan)
        if n is not None:
            r = z3.Or(n, r) if ne else z3.And(z3.Not(n), r)
        return SBool(r)

    def __eq__(self, o):
        if isinstance(o, SArr):
            return NotImplemented
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        if isinstance(o, SArr):
            return NotImplemented
        r = self._cmp(o, lambda a, b: a != b, ne=True)
        return True if r is NotImplemented else r

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        r = self.t != 0
        if self.nan is not None:
            r = z3.Or(self.nan, r)
        return E.decide(r)

    def __index__(self):
        k = self.const()
        if isinstance(k, int):
            return k
        # unique value under the path condition?
        raise Unsupported('symbolic integer where a number is needed')

    def __int__(self):
        raise Unsupported('int() of a symbolic number by a builtin')

    def __float__(self):
        raise Unsupported('float() of a symbolic number by a builtin')

    def __round__(self, nd=None):
        return sround(self, nd)

    def __floor__(self):
        return sfloor(self)

    def __ceil__(self):
        return -sfloor(-self)

    def __trunc__(self):
        return strunc(self)

    def is_integer(self):
        return SBool(z3.IsInt(self.t)) if not self.isint() else True

    # numpy scalar interface
    @property
    def real(self):
        return self

    @property
    def imag(self):
        return SNum(z3.RealVal(0))

    def conj(self):
        return self
    conjugate = conj

    def item(self):
        return self

    def astype(self, t):
        from dv import stubs
        return stubs.np_astype(self, t)

    def copy(self):
        return self

    shape = ()
    ndim = 0

    def max(self):
        return self
    min = max

    def __format__(self, spec):
        raise Unsupported('format of a symbolic number')

    def __repr__(self):
        return 'SNum(%s)' % self.t


def sfloor(x):
    x = lift(x)
    if x.nan is not None and not E.entails(z3.Not(x.nan)):
        raise Unsupported('floor of nan')
    return x if x.isint() else SNum(z3.ToInt(x.t))


def strunc(x):
    x = lift(x)
    if x.nan is not None and not E.entails(z3.Not(x.nan)):
        raise Unsupported('int of nan')
    if x.isint():
        return x
    if E.entails(x.t >= 0):
        return SNum(z3.ToInt(x.t))
    return SNum(z3.If(x.t >= 0, z3.ToInt(x.t), -z3.ToInt(-x.t)))


def sround(x, nd=None):
    """round half to even, to an integer"""
    x = lift(x)
    if nd is not None and nd != 0:
        raise Unsupported('round to digits')
    if x.isint():
        return x
    if x.nan is not None and not E.entails(z3.Not(x.nan)):
        raise Unsupported('round of nan')
    y = x.t + z3.RealVal('1/2')
    r = z3.ToInt(y)
    tie = z3.And(y == z3.ToReal(r), r % 2 == 1)
    return SNum(z3.If(tie, r - 1, r))


_UF = {}


def ufn(name, arity):
    key = ('lib:' + name, arity)
    if key not in _UF:
        _UF[key] = z3.Function('lib:' + name, *([z3.RealSort()] * (arity + 1)))
    return _UF[key]


def uapp(name, *args):
    """uninterpreted library function of real arguments; arguments are brought into normal form"""
    ts = []
    nan = None
    for a in args:
        a = lift(a)
        nan = nan_or(nan, a.nan)
        t = z3.ToReal(a.t) if a.isint() else a.t
        ts.append(E.norm.canon(simp(t)))
    return SNum(ufn(name, len(ts))(*ts), nan)


def sqrt(x):
    x = lift(x)
    c = x.const()
    if c is not None and c >= 0:
        import math
        f = Fraction(c)
        n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if n * n == f.numerator and d * d == f.denominator:
            return SNum(RV(Fraction(n, d)))
    t = E.norm.canon(simp(real_t(x)))
    s = ufn('sqrt', 1)(t)
    if s.get_id() not in E.sqrt_seen:
        E.sqrt_seen.add(s.get_id())
        E.keep.append(s)
        E.assume(z3.Implies(t >= 0, z3.And(s >= 0, s * s == t)))
    return SNum(s, nan_or(x.nan, t < 0))


def smin(a, b):
    if isinstance(a, SUTC) or isinstance(b, SUTC):
        return a if a <= b else b
    a, b = lift(a), lift(b)
    x, y = same_sort(a.t, b.t)
    return SNum(z3.If(x <= y, x, y), nan_or(a.nan, b.nan))


def smax(a, b):
    if isinstance(a, SUTC) or isinstance(b, SUTC):
        return a if a >= b else b
    a, b = lift(a), lift(b)
    x, y = same_sort(a.t, b.t)
    return SNum(z3.If(x >= y, x, y), nan_or(a.nan, b.nan))


class SCplx(Sym):
    """complex number"""

    def __init__(self, re, im):
        self.re, self.im = lift(re), lift(im)

    def __hash__(self):
        return 7

    @staticmethod
    def of(x):
        if isinstance(x, SCplx):
            return x
        if isinstance(x, complex):
            return SCplx(x.real, x.imag)
        if isnumber(x):
            return SCplx(x, 0)
        raise Unsupported('complex of %s' % type(x).__name__)

    def __add__(self, o):
        if isinstance(o, SArr):
            return NotImplemented
        o = self.of(o)
        return SCplx(self.re + o.re, self.im + o.im)
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, SArr):
            return NotImplemented
        o = self.of(o)
        return SCplx(self.re - o.re, self.im - o.im)

    def __rsub__(self, o):
        return self.of(o) - self

    def __mul__(self, o):
        if isinstance(o, SArr):
            return NotImplemented
        if isnumber(o):
            return SCplx(self.re * o, self.im * o)
        o = self.of(o)
        return SCplx(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, SArr):
            return NotImplemented
        if isnumber(o):
            return SCplx(SNum._div(self.re, o, False), SNum._div(self.im, o, False))
        o = self.of(o)
        d = o.re * o.re + o.im * o.im
        n = self * o.conj()
        return SCplx(SNum._div(n.re, d, False), SNum._div(n.im, d, False))

    def __rtruediv__(self, o):
        return self.of(o) / self

    def __neg__(self):
        return SCplx(-self.re, -self.im)

    def __pow__(self, k):
        if k == 2:
            return self * self
        raise Unsupported('complex power')

    def __abs__(self):
        c = self.im.const()
        if c == 0:
            return abs(self.re)
        return sqrt(self.re * self.re + self.im * self.im)

    def conj(self):
        return SCplx(self.re, -self.im)
    conjugate = conj

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def __eq__(self, o):
        o = self.of(o)
        return AND(self.re == o.re, self.im == o.im)

    def __ne__(self, o):
        return NOT(self == o)

    shape = ()

    def __repr__(self):
        return 'SCplx(%s, %s)' % (self.re, self.im)


def simplify_c(x):
    """complex with vanishing imaginary part stays complex"""
    return x


# ---------------------------------------------------------------- time
class SUTC(Sym):
    """obspy UTCDateTime: a real number of seconds"""

    def __init__(self, t):
        self.s = lift(t)

    def __hash__(self):
        return 7

    def __add__(self, o):
        if isnumber(o):
            return SUTC(self.s + o)
        if isinstance(o, SArr):
            return NotImplemented
        raise TypeError('UTCDateTime + %s' % type(o).__name__)

    def __radd__(self, o):
        raise TypeError('%s + UTCDateTime' % type(o).__name__)

    def __sub__(self, o):
        if isinstance(o, SUTC):
            return self.s - o.s
        if isnumber(o):
            return SUTC(self.s - o)
        raise TypeError('UTCDateTime - %s' % type(o).__name__)

    def _cmp(self, o, f):
        if isinstance(o, SUTC):
            return f(self.s, o.s)
        if isnumber(o):
            return f(self.s, lift(o))
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return NOT(self == o)

    def __neg__(self):
        raise TypeError('- UTCDateTime')

    @property
    def timestamp(self):
        return self.s

    @property
    def datetime(self):
        return OpaqueObj('datetime', self)

    def __repr__(self):
        return 'SUTC(%s)' % self.s


class OpaqueObj(Sym):
    """a value nobody looks into; equal to another one built the same way"""

    def __init__(self, kind, *args):
        self.kind, self.args = kind, args

    def __hash__(self):
        return 7

    def __eq__(self, o):
        if not isinstance(o, OpaqueObj) or o.kind != self.kind or len(o.args) != len(self.args):
            return False
        return AND(*[veq(a, b) for a, b in zip(self.args, o.args)])

    def __ne__(self, o):
        return NOT(self == o)

    def __repr__(self):
        return 'OpaqueObj(%s)' % self.kind


# ---------------------------------------------------------------- strings
class Atom(object):
    """piece of a string.  kind 'char': exactly one character, term = code;  'word': characters without dots;
    any other kind: rendering of the value term (str, repr, a format)"""

    def __init__(self, kind, term):
        self.kind, self.term = kind, term

    def eq(self, o):
        if self.kind != o.kind:
            return None
        if isinstance(self.term, z3.ExprRef) and isinstance(o.term, z3.ExprRef):
            return SBool(self.term == o.term)
        return veq(self.term, o.term)

    def __repr__(self):
        return '<%s %s>' % (self.kind, self.term)


_INTERN = {}


def intern(s):
    """code of a literal word; single characters have their code point"""
    if len(s) == 1:
        return ord(s)
    if s not in _INTERN:
        _INTERN[s] = -1 - len(_INTERN)
    return _INTERN[s]


class SStr(Sym):
    def __init__(self, pieces):
        out = []
        for p in pieces:
            if isinstance(p, SStr):
                ps = p.pieces
            else:
                ps = [p]
            for q in ps:
                if isinstance(q, str):
                    if not q:
                        continue
                    if out and isinstance(out[-1], str):
                        out[-1] = out[-1] + q
                        continue
                out.append(q)
        self.pieces = out

    @staticmethod
    def make(pieces):
        s = SStr(pieces)
        if all(isinstance(p, str) for p in s.pieces):
            return ''.join(s.pieces)
        return s

    @staticmethod
    def char(base):
        t = z3.Int(E.name(base))
        E.assume(z3.And(t >= 33, t <= 126, t != 46))
        return SStr([Atom('char', t)])

    @staticmethod
    def word(base):
        return SStr([Atom('word', z3.Int(E.name(base)))])

    def __hash__(self):
        return 11

    def __len__(self):
        n = self.length()
        if isinstance(n, int):
            return n
        raise Unsupported('length of a symbolic string')

    def __bool__(self):
        if any(isinstance(p, str) or p.kind == 'char' for p in self.pieces):
            return True
        return len(self) > 0

    def length(self):
        n = 0
        for p in self.pieces:
            if isinstance(p, str):
                n += len(p)
            elif p.kind == 'char':
                n += 1
            else:
                return SNum(ufn_len(self))
        return n

    def __add__(self, o):
        if isinstance(o, (str, SStr)):
            return SStr.make([self, o])
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (str, SStr)):
            return SStr.make([o, self])
        return NotImplemented

    def __iter__(self):
        return iter([self[i] for i in range(len(self))])

    def __getitem__(self, i):
        ps = self.pieces
        if isinstance(i, slice):
            if i.step is not None:
                raise Unsupported('string step')
            if i.start in (None, 0) and isinstance(i.stop, int) and i.stop < 0:
                return SStr.make(self._drop_last(-i.stop))
            if i.start in (None, 0) and i.stop is None:
                return self
            if i.stop is None and isinstance(i.start, int) and i.start < 0:
                return SStr.make(self._last(-i.start))
            if i.stop is None and isinstance(i.start, int) and i.start > 0:
                return SStr.make(self._drop_first(i.start))
            if i.start in (None, 0) and isinstance(i.stop, int):
                n = self.length()
                if isinstance(n, int):
                    cs = [self[k] for k in range(n)]
                    return SStr.make(cs[i])
            n = self.length()
            if isinstance(n, int):
                return SStr.make([self[k] for k in range(n)][i])
            raise Unsupported('string slice')
        if not isinstance(i, int):
            raise Unsupported('symbolic string index')
        if i < 0:
            k = -i
            last = self._last(k)
            return SStr.make(last[:1]) if not isinstance(last[0], str) else last[0][0]
        # from the front
        for p in ps:
            if isinstance(p, str):
                if i < len(p):
                    return p[i]
                i -= len(p)
            elif p.kind == 'char':
                if i == 0:
                    return SStr([p])
                i -= 1
            else:
                raise Unsupported('index into a symbolic word')
        raise IndexError('string index out of range')

    def _last(self, k):
        out = []
        for p in reversed(self.pieces):
            if k == 0:
                break
            if isinstance(p, str):
                out.insert(0, p[-k:])
                k -= min(k, len(p))
            elif p.kind == 'char':
                out.insert(0, p)
                k -= 1
            else:
                raise Unsupported('end of a symbolic word')
        if k:
            raise IndexError('string index out of range')
        return out

    def _drop_last(self, k):
        ps = list(self.pieces)
        while k and ps:
            p = ps.pop()
            if isinstance(p, str):
                if len(p) > k:
                    ps.append(p[:-k])
                    k = 0
                else:
                    k -= len(p)
            elif p.kind == 'char':
                k -= 1
            else:
                raise Unsupported('end of a symbolic word')
        return ps

    def _drop_first(self, k):
        ps = list(self.pieces)
        while k and ps:
            p = ps.pop(0)
            if isinstance(p, str):
                if len(p) > k:
                    ps.insert(0, p[k:])
                    k = 0
                else:
                    k -= len(p)
            elif p.kind == 'char':
                k -= 1
            else:
                raise Unsupported('start of a symbolic word')
        return ps

    def _parts(self, sep):
        if sep != '.':
            raise Unsupported('split')
        out, cur = [], []
        for p in self.pieces:
            if isinstance(p, str):
                parts = p.split('.')
                cur.append(parts[0])
                for q in parts[1:]:
                    out.append(SStr.make(cur))
                    cur = [q]
            elif p.kind in ('char', 'word'):
                cur.append(p)
            else:
                raise Unsupported('split of a rendered value')
        out.append(SStr.make(cur))
        return out

    @staticmethod
    def _rejoin(parts):
        out = []
        for k, p in enumerate(parts):
            out += (['.'] if k else []) + ([p] if isinstance(p, str) else list(p.pieces))
        return SStr.make(out)

    def split(self, sep=None, maxsplit=-1):
        out = self._parts(sep)
        if not isinstance(maxsplit, int):
            raise Unsupported('split')
        if 0 <= maxsplit < len(out) - 1:
            out = out[:maxsplit] + [self._rejoin(out[maxsplit:])]
        return DList(out)

    def rsplit(self, sep=None, maxsplit=-1):
        out = self._parts(sep)
        if not isinstance(maxsplit, int):
            raise Unsupported('split')
        if 0 <= maxsplit < len(out) - 1:
            k = len(out) - maxsplit
            out = [self._rejoin(out[:k])] + out[k:]
        return DList(out)

    def partition(self, sep):
        out = self._parts(sep)
        if len(out) == 1:
            return self, '', ''
        return out[0], sep, self._rejoin(out[1:])

    def rpartition(self, sep):
        out = self._parts(sep)
        if len(out) == 1:
            return '', '', self
        return self._rejoin(out[:-1]), sep, out[-1]

    def endswith(self, s):
        if isinstance(s, tuple):
            return OR(*[self.endswith(x) for x in s])
        if len(s) == 0:
            return True
        if len(s) != 1:
            try:
                last = self._last(len(s))
            except IndexError:
                return False
            return SStr.make(last) == s
        return self[-1] == s

    def startswith(self, s):
        if isinstance(s, tuple):
            return OR(*[self.startswith(x) for x in s])
        p = self.pieces[0] if self.pieces else ''
        if isinstance(p, str) and len(p) >= len(s):
            return p.startswith(s)
        if len(s) == 1:
            return self[0] == s
        raise Unsupported('startswith')

    def upper(self):
        return self._case('upper', 97, 122, -32)

    def lower(self):
        return self._case('lower', 65, 90, 32)

    def _case(self, name, lo, hi, d):
        out = []
        for p in self.pieces:
            if isinstance(p, str):
                out.append(getattr(p, name)())
            elif p.kind == 'char':
                out.append(Atom('char', simp(z3.If(z3.And(p.term >= lo, p.term <= hi), p.term + d, p.term))))
            elif p.kind == 'word':
                f = z3.Function('lib:str.' + name, z3.IntSort(), z3.IntSort())
                out.append(Atom('word', f(p.term)))
            else:
                raise Unsupported('case of a rendered value')
        return SStr(out)

    def count(self, s):
        if s == '.' and all(isinstance(p, str) or p.kind in ('char', 'word') for p in self.pieces):
            return sum(p.count('.') for p in self.pieces if isinstance(p, str))
        if len(s) == 1 and isinstance(self.length(), int):
            n = 0
            for i in range(self.length()):
                c = self[i]
                if isinstance(c, str):
                    n = n + (1 if c == s else 0)
                else:
                    n = n + (c == s).num()
            return n
        raise Unsupported('count in a symbolic string')

    def __contains__(self, s):
        n = self.length()
        if isinstance(n, int) and len(s) == 1:
            return bool(OR(*[self[i] == s for i in range(n)]))
        raise Unsupported('in symbolic string')

    def __eq__(self, o):
        if isinstance(o, str):
            o = SStr([o])
        if not isinstance(o, SStr):
            return False
        return self.equal(self.pieces, o.pieces)

    @staticmethod
    def equal(a, b):
        a, b = list(a), list(b)
        if all(isinstance(x, str) or x.kind in ('char', 'word') for x in a + b) and \
                len({sum(x.count('.') for x in c if isinstance(x, str)) for c in (a, b)}) == 2:
            return False        # a dot is never part of a char or word (see split)
        conds = []
        # from the right, then from the left
        while a and b:
            x, y = a[-1], b[-1]
            if isinstance(x, str) and isinstance(y, str):
                n = min(len(x), len(y))
                if x[-n:] != y[-n:]:
                    return False
                a.pop()
                b.pop()
                if len(x) > n:
                    a.append(x[:-n])
                if len(y) > n:
                    b.append(y[:-n])
                continue
            if isinstance(x, Atom) and isinstance(y, Atom):
                if x.kind == y.kind and (x.kind == 'char' or len(a) == len(b) == 1 or
                                         SStr.sep(a) and SStr.sep(b)):
                    e = x.eq(y)
                    if e is False:
                        return False
                    conds.append(e)
                    a.pop()
                    b.pop()
                    continue
                if x.kind != y.kind and len(a) == len(b) == 1 and x.kind not in ('char', 'word') and \
                        y.kind not in ('char', 'word'):
                    raise Unsupported('comparison of %s and %s' % (x.kind, y.kind))
                raise Unsupported('string comparison')
            if isinstance(x, Atom):
                a, b, x, y = b, a, y, x     # x literal, y atom
            if y.kind == 'char':
                conds.append(SBool(y.term == ord(x[-1])))
                b.pop()
                a[-1] = x[:-1]
                if not a[-1]:
                    a.pop()
                continue
            if y.kind == 'word' and (len(b) == 1 or SStr.sep(b)):
                # the word equals the rest of the literal up to the next dot
                lit = x.rsplit('.', 1)[-1]
                if len(lit) == len(x) and len(a) > 1:
                    raise Unsupported('string comparison')
                conds.append(SBool(y.term == intern(lit)))
                b.pop()
                a[-1] = x[:len(x) - len(lit)]
                if not a[-1]:
                    a.pop()
                continue
            raise Unsupported('string comparison')
        rest = a or b
        if rest:
            for p in rest:
                if isinstance(p, str) or p.kind == 'char':
                    return False
            if all(p.kind == 'word' for p in rest):
                conds += [SBool(p.term == intern('')) for p in rest]
            else:
                raise Unsupported('string comparison')
        return AND(*conds)

    @staticmethod
    def sep(ps):
        """last piece is preceded by a dot"""
        return len(ps) == 1 or (isinstance(ps[-2], str) and ps[-2].endswith('.'))

    def __ne__(self, o):
        return NOT(self == o)

    def __lt__(self, o):
        return self._order(o) < 0

    def __gt__(self, o):
        return self._order(o) > 0

    def __le__(self, o):
        return self._order(o) <= 0

    def __ge__(self, o):
        return self._order(o) >= 0

    def _order(self, o):
        """order decided by a literal prefix"""
        x = self.pieces[0] if self.pieces else ''
        y = o if isinstance(o, str) else o.pieces[0] if o.pieces else ''
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if x[:n] != y[:n]:
                return -1 if x[:n] < y[:n] else 1
        raise Unsupported('order of symbolic strings')

    def format(self, *a, **k):
        from dv import stubs
        return stubs.str_format(self, a, k)

    def __mod__(self, o):
        from dv import stubs
        return stubs.str_mod(self, o)

    def join(self, it):
        raise Unsupported('join with symbolic separator')

    def encode(self, *a):
        return self

    def decode(self, *a):
        return self

    def strip(self, *a):
        return self

    def __str__(self):
        return '~' + ''.join(p if isinstance(p, str) else '{%s}' % p for p in self.pieces)

    def __repr__(self):
        return 'SStr(%r)' % (self.pieces,)


def ufn_len(s):
    raise Unsupported('length of a symbolic string')


class SPhase(SStr):
    """name of a phase: letters P, S, p, s only; abstracted to numbers of letters, first and last letter"""

    def __init__(self, base=None, like=None, up=False):
        self.pieces = [self]
        self.kind = 'phase'
        if like is not None:
            self.n = like.n
            self.firstP, self.lastP, self.up, self.key = like.firstP, like.lastP, up, like.key
            self.case_ = like.case_
        else:
            n = {c: E.int('%s_n%s' % (base, c), 0) for c in 'PSps'}
            self.n = n
            self.key = E.int(base + '_id')
            self.up = False
            self.firstP = E.bool(base + '_firstP')
            self.lastP = E.bool(base + '_lastP')
            self.case_ = z3.Bool(E.name(base + '_firstupper'))
            np_, ns = n['P'] + n['p'], n['S'] + n['s']
            E.assume((np_ + ns).t >= 1)
            E.assume(z3.Implies(self.firstP.t, np_.t >= 1))
            E.assume(z3.Implies(z3.Not(self.firstP.t), ns.t >= 1))
            E.assume(z3.Implies(self.lastP.t, np_.t >= 1))
            E.assume(z3.Implies(z3.Not(self.lastP.t), ns.t >= 1))
            first = lambda c, pp: z3.Implies(z3.And(self.firstP.t == pp, self.case_ == c.isupper()), n[c].t >= 1)
            for c in 'PSps':
                E.assume(first(c, c in 'Pp'))

    def __bool__(self):
        return True

    @property
    def term(self):
        return OpaqueObj('phase', self.key, self.up)

    def eq(self, o):
        if isinstance(o, SPhase):
            if self.up == o.up:
                return self.key == o.key
            raise Unsupported('phase comparison')
        return None

    def numP(self):
        return self.n['P'] + self.n['p']

    def numS(self):
        return self.n['S'] + self.n['s']

    def length(self):
        return self.numP() + self.numS()

    def upper(self):
        return SPhase(like=self, up=True)

    def count(self, s):
        if self.up:
            return {'P': self.numP(), 'S': self.numS()}.get(s, 0)
        return self.n.get(s, 0)

    def __contains__(self, s):
        return bool(self.count(s) > 0)

    def __getitem__(self, i):
        if i == 0 or i == -1:
            isP = self.firstP if i == 0 else self.lastP
            if self.up:
                return SStr([Atom('char', z3.If(isP.t, z3.IntVal(80), z3.IntVal(83)))])
            if i == 0:
                return SStr([Atom('char', z3.If(self.case_, z3.If(isP.t, z3.IntVal(80), z3.IntVal(83)),
                                                z3.If(isP.t, z3.IntVal(112), z3.IntVal(115))))])
        raise Unsupported('letter %r of a phase' % (i,))

    def endswith(self, s):
        if self.up and s in ('P', 'S'):
            return self.lastP if s == 'P' else NOT(self.lastP)
        raise Unsupported('end of a phase')

    def __eq__(self, o):
        if isinstance(o, SPhase):
            return self.eq(o)
        if isinstance(o, str):
            if any(c not in 'PSps' for c in o) or not o:
                return False
            if len(o) == 1 and self.up:
                return AND(self.length() == 1, self.count(o) == 1)
            raise Unsupported('phase compared to a literal')
        return False

    def __hash__(self):
        return 11

    def __iter__(self):
        raise Unsupported('letters of a phase')


# ---------------------------------------------------------------- equality
def veq(a, b):
    """deep equality -> True/False/SBool"""
    if a is b:
        return True
    if isinstance(a, SArr) or isinstance(b, SArr):
        if isinstance(a, SArr) and isinstance(b, SArr):
            return arr_eq(a, b)
        return False
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if isinstance(a, DList) or isinstance(b, DList):
            pa, pb = parts_of(a), parts_of(b)
        else:
            pa, pb = list(a), list(b)
        if len(pa) != len(pb):
            return False
        r = []
        for x, y in zip(pa, pb):
            if isinstance(x, Gap) or isinstance(y, Gap):
                r.append(x is y or (isinstance(x, Gap) and isinstance(y, Gap) and x.same(y)))
            else:
                r.append(veq(x, y))
        if any(x is False for x in r):
            return False
        return AND(*r)
    if isinstance(a, dict) and isinstance(b, dict):
        ka, kb = sorted(a, key=str), sorted(b, key=str)
        if ka != kb:
            return False
        r = [veq(a[k], b[k]) for k in ka]
        if any(x is False for x in r):
            return False
        return AND(*r)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b
    if isnumber(a) and isnumber(b):
        a, b = lift(a), lift(b)
        x, y = same_sort(a.t, b.t)
        if a.nan is None and b.nan is None:
            return SBool(x == y)
        na = a.nan if a.nan is not None else z3.BoolVal(False)
        nb = b.nan if b.nan is not None else z3.BoolVal(False)
        return SBool(z3.And(na == nb, z3.Or(na, x == y)))
    if isinstance(a, (SCplx, complex)) or isinstance(b, (SCplx, complex)):
        if (isnumber(a) or isinstance(a, (SCplx, complex))) and (isnumber(b) or isinstance(b, (SCplx, complex))):
            a, b = SCplx.of(a), SCplx.of(b)
            return AND(veq(a.re, b.re), veq(a.im, b.im))
        return False
    return a == b


def holds(c):
    """is the condition entailed by the path condition"""
    if c is True or c is False:
        return c
    if isinstance(c, SBool):
        if E.by_normal_form(c.t):
            return True
        return E.entails(c.t)
    return bool(c)


def decide(c, ms=1500):
    """True: entailed by the path condition, False: not entailed, None: the solver cannot tell"""
    if c is True or c is False:
        return c
    if not isinstance(c, SBool):
        return bool(c)
    if E.by_normal_form(c.t):
        return True
    t = simp(c.t)
    if z3.is_true(t):
        return True
    n = z3.Not(t)
    if E.nonlin and E.linear(n):
        if E.quick(n) == z3.unsat:
            return True
        ms = 150
    r = E.sat(n, ms)
    return False if r == z3.sat else True if r == z3.unsat else None


def arr_eq(a, b):
    """elementwise equality at fresh indices (the returned condition mentions these)"""
    if len(a.shape) != len(b.shape):
        return False
    conds = [veq(x, y) for x, y in zip(a.shape, b.shape)]
    if any(c is False for c in conds):
        return False
    idx, rng = [], []
    for n in a.shape:
        i = z3.Int(E.name('idx'))
        idx.append(SNum(i))
        rng.append(z3.And(i >= 0, i < int_t(n)))
    # axioms created while elements are evaluated hold anyway
    e = veq(a.at(*idx), b.at(*idx))
    return AND(*(conds + [SBool(z3.Implies(z3.And(*rng), zb(e)))]))


# ---------------------------------------------------------------- arrays
class Buffer(object):
    """memory of an array: shape and element function, replaced by stores"""

    def __init__(self, shape, fn, dtype='f'):
        self.shape = tuple(shape)
        self.fn = fn
        self.dtype = dtype
        newborn(self)
        self.version = 0


class SArr(Sym):
    """numpy array: view of a buffer; index maps index terms to buffer index terms"""
    masked = False

    def __init__(self, shape=None, fn=None, dtype='f', buf=None, index=None):
        if buf is None:
            buf = Buffer(shape, fn, dtype)
            index = None
        self.buf, self.index = buf, index
        self._shape = tuple(shape) if shape is not None else buf.shape

    def __hash__(self):
        raise TypeError('unhashable array')

    @staticmethod
    def symbolic(base, n, dtype='f'):
        """1-d array of unknown content"""
        f = z3.Function(E.name(base), z3.IntSort(), z3.RealSort())
        if dtype == 'c':
            g = z3.Function(E.name(base + '_im'), z3.IntSort(), z3.RealSort())
            return SArr((n,), lambda i: SCplx(SNum(f(int_t(i))), SNum(g(int_t(i)))), 'c')
        return SArr((n,), lambda i: SNum(f(int_t(i))), dtype)

    @staticmethod
    def symbolic2(base, n, m):
        f = z3.Function(E.name(base), z3.IntSort(), z3.IntSort(), z3.RealSort())
        return SArr((n, m), lambda i, j: SNum(f(int_t(i), int_t(j))), 'f')

    @property
    def shape(self):
        return self._shape

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        r = 1
        for n in self._shape:
            r = n * r
        return r

    @property
    def dtype(self):
        from dv import stubs
        return stubs.DType(self.buf.dtype)

    @property
    def T(self):
        if self.ndim == 1:
            return self
        if self.ndim != 2:
            raise Unsupported('transpose')
        idx = self.index
        return SArr((self._shape[1], self._shape[0]), buf=self.buf,
                    index=(lambda i, j: (j, i)) if idx is None else (lambda i, j: idx(j, i)))

    def at(self, *idx):
        """element at (valid, nonnegative) indices"""
        if self.index is not None:
            idx = self.index(*idx)
        return self.buf.fn(*idx)

    def length(self):
        if not self._shape:
            raise TypeError('len() of unsized object')
        return self._shape[0]

    def __len__(self):
        n = self.length()
        if isinstance(n, int):
            return n
        c = n.const()
        if isinstance(c, int):
            return c
        raise Unsupported('len() of a symbolic array by a builtin')

    # -- indexing
    def _norm_index(self, i, n):
        """valid nonnegative index or IndexError (forks)"""
        if isinstance(i, int) and isinstance(n, int):
            if not -n <= i < n:
                raise IndexError('index %d is out of bounds' % i)
            return i if i >= 0 else n + i
        i, n = lift(i), lift(n)
        if not i.isint():
            raise IndexError('only integers are valid indices')
        if isinstance(i.const(), int):
            k = i.const()
            if k >= 0:
                if not SBool(k < n.t):
                    raise IndexError('index out of bounds')
                return i
            if not SBool(-k <= n.t):
                raise IndexError('index out of bounds')
            return n + k
        if not SBool(z3.And(i.t < n.t, i.t >= -n.t)):
            raise IndexError('index out of bounds')
        E.forall_at(i)
        if E.entails(i.t >= 0):
            return i
        if E.entails(i.t < 0):
            return i + n
        return SNum(z3.If(i.t >= 0, i.t, i.t + n.t))

    def _slice(self, s, n):
        """-> start, length, step(+-1 or k>0)"""
        step = 1 if s.step is None else s.step
        if isinstance(step, SNum):
            step = step.const() if step.const() is not None else step
        n = lift(n)

        def bound(v, default):
            if v is None:
                return default
            v = lift(v)
            if not v.isint():
                raise TypeError('slice indices must be integers')
            c = simp(z3.If(v.t < 0, z3.If(v.t + n.t < 0, z3.IntVal(0), v.t + n.t),
                           z3.If(v.t > n.t, n.t, v.t)))
            for cand in (v.t, n.t, v.t + n.t, z3.IntVal(0)):
                cs = simp(cand)
                if E.entails(c == cs):
                    return SNum(cs)
            return SNum(c)
        if isinstance(step, int) and step == 1:
            a, b = bound(s.start, SNum(z3.IntVal(0))), bound(s.stop, n)
            ln = simp(b.t - a.t)
            if not E.entails(ln >= 0):
                if E.entails(ln <= 0):
                    ln = z3.IntVal(0)
                else:
                    ln = z3.If(ln >= 0, ln, z3.IntVal(0))
            return a, SNum(ln), 1
        if isinstance(step, int) and step == -1 and s.start is None and s.stop is None:
            return n - 1, n, -1
        if isinstance(step, int) and step > 1:
            a, b = bound(s.start, SNum(z3.IntVal(0))), bound(s.stop, n)
            ln = simp((b.t - a.t + (step - 1)) / step)
            return a, SNum(z3.If(ln >= 0, ln, z3.IntVal(0))), step
        raise Unsupported('slice step')

    def _view(self, key):
        """-> (shape, index map) for basic indexing; None shape = scalar"""
        if not isinstance(key, tuple):
            key = (key,)
        if any(k is Ellipsis for k in key):
            i = [j for j, k in enumerate(key) if k is Ellipsis][0]
            nones = sum(k is None for k in key)
            fill = len(self._shape) - (len(key) - 1 - nones)
            key = key[:i] + (slice(None),) * fill + key[i + 1:]
        shape, maps = [], []
        d = 0
        for k in key:
            if k is None:
                shape.append(1)
                maps.append(('new',))
                continue
            if d >= len(self._shape):
                raise IndexError('too many indices for array')
            n = self._shape[d]
            d += 1
            if isinstance(k, slice):
                a, ln, st = self._slice(k, n)
                c = ln.const()
                shape.append(c if isinstance(c, int) else ln)
                maps.append(('slice', a, st))
            elif isnumber(k):
                maps.append(('int', self._norm_index(k, n)))
            else:
                return None
        for n in self._shape[d:]:
            shape.append(n)
            maps.append(('slice', 0, 1))

        def index(*idx):
            out, j = [], 0
            for m in maps:
                if m[0] == 'new':
                    j += 1
                elif m[0] == 'int':
                    out.append(m[1])
                else:
                    i = idx[j]
                    j += 1
                    out.append(lift(m[1]) + (i if m[2] == 1 else -lift(i) if m[2] == -1 else lift(i) * m[2]))
            return tuple(out)
        return tuple(shape), index, maps

    def __getitem__(self, key):
        if isinstance(key, SArr) and key.buf.dtype == 'b':
            return Masked(self, key)
        if isinstance(key, SArr):
            # integer array
            if self.ndim != 1:
                raise Unsupported('fancy indexing')
            n = self._shape[0]
            return SArr(key.shape, lambda *i: self.at(SNum(simp(z3.If(
                int_t(key.at(*i)) >= 0, int_t(key.at(*i)), int_t(key.at(*i)) + int_t(n))))), self.buf.dtype)
        if isinstance(key, list):
            raise Unsupported('fancy indexing')
        v = self._view(key)
        if v is None:
            raise Unsupported('array index %s' % (type(key).__name__))
        shape, index, _ = v
        if not shape:
            return self.at(*index())
        old = self.index
        return SArr(shape, buf=self.buf, index=index if old is None else (lambda *i: old(*index(*i))))

    def __setitem__(self, key, value):
        if isinstance(key, SArr) and key.buf.dtype == 'b':
            if self.ndim != 1 or isinstance(value, SArr):
                raise Unsupported('masked store')
            if self.index is not None:
                raise Unsupported('masked store into a view')
            E.mut(self.buf, 'store')
            old, mask = self.buf.fn, freeze(key)
            self.buf.fn = lambda i: ite(zb(mask.at(i)), value, old(i))
            self.buf.version += 1
            return
        v = self._view(key)
        if v is None:
            raise Unsupported('store at %s' % type(key).__name__)
        shape, index, maps = v
        if isinstance(value, (list, tuple)):
            from dv import stubs
            value = stubs.np_array(value)
        if isinstance(value, SArr):
            value = freeze(value)
            if value.ndim > len(shape):
                raise ValueError('could not broadcast input array')
            # shapes must agree
            for n, m in zip(reversed(shape), reversed(value.shape)):
                if not (isinstance(m, int) and m == 1) and not holds(veq(n, m)):
                    if NOT(veq(n, m)):
                        raise ValueError('could not broadcast input array into shape')
        E.mut(self.buf, 'store', (self, key, value))
        if self.index is not None:
            # compose with an affine view: invert through a fresh description of the region
            base = self._base_region()
            if base is None:
                raise Unsupported('store into this view')
            maps = compose(base, maps)
            if maps is None:
                raise Unsupported('store into this view')
        shp = self.buf.shape
        old = self.buf.fn
        lens = [n for n in shape]

        def fn(*idx):
            conds, sub, j = [], [], 0
            k = 0
            for m in maps:
                if m[0] == 'new':
                    j += 1
                    continue
                i = lift(idx[k])
                k += 1
                if m[0] == 'int':
                    conds.append(i.t == int_t(m[1]))
                    continue
                a, st = lift(m[1]).t, m[2]
                n = int_t(lens[j])
                j += 1
                if st == 1:
                    o = i.t - a
                elif st == -1:
                    o = a - i.t
                else:
                    conds.append((i.t - a) % st == 0)
                    o = (i.t - a) / st
                conds += [o >= 0, o < n]
                sub.append(SNum(simp(o)))
            c = z3.And(*conds) if conds else z3.BoolVal(True)
            c = simp(c)
            if z3.is_false(c):
                return old(*idx)
            if isinstance(value, SArr):
                s2 = sub[len(sub) - value.ndim:]
                s2 = [SNum(z3.IntVal(0)) if isinstance(n, int) and n == 1 else s
                      for s, n in zip(s2, value.shape)]
                new = value.at(*s2)
            else:
                new = value
            if self.buf.dtype == 'f' and isinstance(new, SCplx):
                new = new.re
            if z3.is_true(c):
                return new
            return ite(c, new, old(*idx))
        self.buf.fn = fn
        self.buf.version += 1

    def _base_region(self):
        """maps of this view w.r.t. its buffer, recovered from the index function (affine, unit steps)"""
        probes = [SNum(z3.Int('probe!%d' % d)) for d in range(self.ndim)]
        out = self.index(*probes)
        maps = []
        for o in out:
            t = simp(int_t(o))
            found = None
            for d, p in enumerate(probes):
                if E.norm.contains(t, p.t):
                    zero = simp(z3.substitute(t, (p.t, z3.IntVal(0))))
                    one = simp(z3.substitute(t, (p.t, z3.IntVal(1))))
                    st = simp(one - zero)
                    if not z3.is_int_value(st):
                        return None
                    if not E.norm.equal(t, zero + st * p.t):
                        return None
                    found = ('slice', SNum(zero), st.as_long(), d)
                    break
            maps.append(found or ('int', o))
        order = [m[3] for m in maps if m[0] == 'slice']
        if order != sorted(order) or len(order) != self.ndim:
            return None
        return maps

    # -- arithmetic
    def _zip(self, o, f, dtype=None):
        return broadcast(f, self, o, dtype=dtype)

    def __array_ufunc__(self, *a, **k):
        raise Unsupported('numpy function on symbolic array')

    def __add__(self, o):
        return self._zip(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._zip(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._zip(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._zip(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._zip(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._zip(o, edivide)

    def __rtruediv__(self, o):
        return self._zip(o, lambda a, b: edivide(b, a))

    def __floordiv__(self, o):
        return self._zip(o, lambda a, b: a // b)

    def __mod__(self, o):
        return self._zip(o, lambda a, b: a % b)

    def __pow__(self, o):
        return self._zip(o, lambda a, b: a ** b)

    def __neg__(self):
        return self.map(lambda a: -a)

    def __abs__(self):
        return self.map(abs, dtype='f')

    def _inplace(self, o, f):
        r = broadcast(f, self, o)
        r = freeze(r)
        self[(slice(None),) * self.ndim] = r
        return self

    def __iadd__(self, o):
        return self._inplace(o, lambda a, b: a + b)

    def __isub__(self, o):
        return self._inplace(o, lambda a, b: a - b)

    def __imul__(self, o):
        return self._inplace(o, lambda a, b: a * b)

    def __itruediv__(self, o):
        return self._inplace(o, edivide)

    def __lt__(self, o):
        return self._zip(o, lambda a, b: a < b, 'b')

    def __le__(self, o):
        return self._zip(o, lambda a, b: a <= b, 'b')

    def __gt__(self, o):
        return self._zip(o, lambda a, b: a > b, 'b')

    def __ge__(self, o):
        return self._zip(o, lambda a, b: a >= b, 'b')

    def __eq__(self, o):
        return self._zip(o, lambda a, b: a == b, 'b')

    def __ne__(self, o):
        return self._zip(o, lambda a, b: a != b, 'b')

    def __and__(self, o):
        return self._zip(o, lambda a, b: AND(a, b), 'b')

    def __or__(self, o):
        return self._zip(o, lambda a, b: OR(a, b), 'b')

    def __invert__(self):
        return self.map(NOT, 'b')

    def __matmul__(self, o):
        from dv import stubs
        return stubs.np_dot(self, o)

    def __bool__(self):
        raise Unsupported('truth value of an array')

    def __iter__(self):
        n = self.length()
        if isinstance(n, SNum):
            n = n.const()
        if isinstance(n, int):
            return iter([self[i] for i in range(n)])
        raise Unsupported('iteration over a symbolic array')

    def map(self, f, dtype=None):
        s = freeze(self)
        return SArr(self.shape, lambda *i: f(s.at(*i)), dtype or self.buf.dtype)

    # -- methods
    @property
    def real(self):
        if self.buf.dtype != 'c':
            return self
        return self.map(lambda a: SCplx.of(a).re, 'f')

    @property
    def imag(self):
        return self.map(lambda a: SCplx.of(a).im, 'f')

    def conj(self):
        return self.map(lambda a: a.conj() if isinstance(a, SCplx) else a)
    conjugate = conj

    def copy(self):
        s = freeze(self)
        return SArr(self.shape, s.at, self.buf.dtype)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, t):
        from dv import stubs
        return stubs.np_astype(self, t)

    def flatten(self):
        if self.ndim == 1:
            return self.copy()
        raise Unsupported('flatten')
    ravel = flatten

    def tolist(self):
        return DList(list(self))

    def __getattr__(self, k):
        if k.startswith('_'):
            raise AttributeError(k)
        from dv import stubs
        f = getattr(stubs, 'np_' + k, None)
        if f is None:
            raise Unsupported('array method %s' % k)
        return lambda *a, **kw: f(self, *a, **kw)

    def __repr__(self):
        return 'SArr%s' % (self.shape,)


class Masked(Sym):
    """a[mask]: only reductions of it are supported"""

    def __init__(self, a, mask):
        self.a, self.mask = freeze(a), freeze(mask)


def compose(base, maps):
    """region `maps` of a view described by `base`"""
    out, k = [], 0
    ms = [m for m in maps]
    if any(m[0] == 'new' for m in ms):
        return None
    for b in base:
        if b[0] == 'int':
            out.append(b)
            continue
        m = ms[b[3]]
        off, st = b[1], b[2]
        if m[0] == 'int':
            out.append(('int', off + lift(m[1]) * st))
        else:
            if abs(st) != 1 or abs(m[2]) != 1:
                return None
            out.append(('slice', off + lift(m[1]) * st, st * m[2]))
    return out


def freeze(a):
    """view of the present content (later stores do not change it)"""
    if a.index is None:
        f = a.buf.fn
        r = SArr.__new__(SArr)
        r.buf = Buffer.__new__(Buffer)
        r.buf.shape, r.buf.fn, r.buf.dtype, r.buf._birth, r.buf.version = a.buf.shape, f, a.buf.dtype, 0, 0
        r.index, r._shape = None, a._shape
        return r
    f, ix = a.buf.fn, a.index
    r = SArr.__new__(SArr)
    r.buf = Buffer.__new__(Buffer)
    r.buf.shape, r.buf.dtype, r.buf._birth, r.buf.version = a._shape, a.buf.dtype, 0, 0
    r.buf.fn = lambda *i: f(*ix(*i))
    r.index, r._shape = None, a._shape
    return r


def ite(c, a, b):
    """value a if c else b"""
    if isinstance(c, SBool):
        c = c.t
    c = simp(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b:
        return a
    if isinstance(a, (SCplx, complex)) or isinstance(b, (SCplx, complex)):
        a, b = SCplx.of(a), SCplx.of(b)
        return SCplx(ite(c, a.re, b.re), ite(c, a.im, b.im))
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
        return SBool(z3.If(c, zb(a), zb(b)))
    if isnumber(a) and isnumber(b):
        a, b = lift(a), lift(b)
        x, y = same_sort(a.t, b.t)
        nan = None
        if a.nan is not None or b.nan is not None:
            f = z3.BoolVal(False)
            nan = z3.If(c, a.nan if a.nan is not None else f, b.nan if b.nan is not None else f)
        return SNum(z3.If(c, x, y), nan)
    raise Unsupported('conditional value of %s and %s' % (type(a).__name__, type(b).__name__))


def edivide(a, b):
    """elementwise division (no exception)"""
    if isinstance(a, SCplx) or isinstance(b, SCplx):
        return SCplx.of(a) / b
    if isinstance(a, complex) or isinstance(b, complex):
        return SCplx.of(a) / SCplx.of(b)
    return SNum._div(a, b, scalar=False)


def result_dtype(*xs):
    ds = []
    for x in xs:
        if isinstance(x, SArr):
            ds.append(x.buf.dtype)
        elif isinstance(x, (SCplx, complex)):
            ds.append('c')
        elif isinstance(x, (bool, SBool)):
            ds.append('b')
        elif isinstance(x, int) or isinstance(x, SNum) and x.isint():
            ds.append('i')
        else:
            ds.append('f')
    for d in 'cfi':
        if d in ds:
            return d
    return 'b'


def broadcast(f, *xs, **kw):
    dtype = kw.get('dtype')
    from dv import stubs
    xs = [stubs.np_array(x) if isinstance(x, (list, tuple)) or stubs.is_real_array(x) else x for x in xs]
    for x in xs:
        if isinstance(x, (SUTC, SStr, OpaqueObj, Gap)):
            raise Unsupported('array operation with %s' % type(x).__name__)
    xs = [freeze(x) if isinstance(x, SArr) else x for x in xs]
    nd = max([x.ndim for x in xs if isinstance(x, SArr)] or [0])
    if nd == 0:
        return f(*xs)
    shape = []
    for d in range(nd):
        dims = []
        for x in xs:
            if isinstance(x, SArr) and x.ndim >= nd - d:
                dims.append(x.shape[x.ndim - nd + d])
        n = dims[0]
        for m in dims[1:]:
            if isinstance(n, int) and n == 1:
                n = m
            elif isinstance(m, int) and m == 1:
                pass
            elif not holds(veq(n, m)):
                one_n, one_m = veq(n, 1), veq(m, 1)
                if E.decide(zb(veq(n, m))):
                    pass
                elif one_n is not False and E.decide(zb(one_n)):
                    raise Unsupported('broadcast of a dimension that may be 1')
                elif one_m is not False and E.decide(zb(one_m)):
                    raise Unsupported('broadcast of a dimension that may be 1')
                else:
                    raise ValueError('operands could not be broadcast together')
        shape.append(n)

    def fn(*idx):
        args = []
        for x in xs:
            if isinstance(x, SArr):
                sub = idx[nd - x.ndim:]
                sub = [SNum(z3.IntVal(0)) if isinstance(n, int) and n == 1 and not (
                    isinstance(shape[nd - x.ndim + k], int) and shape[nd - x.ndim + k] == 1) else s
                    for k, (s, n) in enumerate(zip(sub, x.shape))]
                args.append(x.at(*sub))
            else:
                args.append(x)
        return f(*args)
    return SArr(tuple(shape), fn, dtype or result_dtype(*xs))


# ---------------------------------------------------------------- sequences
class Gap(object):
    """any number of unknown elements"""

    def __init__(self, base, fresh, n=None, check=None, parent=None):
        self.base = base
        self.fresh_ = fresh
        self.n = n if n is not None else E.int('n_' + base, 0)
        self.check = check
        self.parent = parent
        self._birth = E.tick()

    def fresh(self):
        x = self.fresh_()
        E.witnesses.append((self, x))
        return x

    def same(self, o):
        return False

    def derived(self, kind, fresh=None, filtered=True):
        g = Gap(self.base + '.' + kind, fresh or self.fresh_, check=None, parent=self)
        if filtered:
            E.assume(g.n.t <= self.n.t)
        else:
            E.assume(g.n.t == self.n.t)
        return g

    def __repr__(self):
        return 'Gap(%s)' % self.base


def parts_of(x):
    """parts of a sequence: elements and gaps"""
    if isinstance(x, DList):
        return x.parts
    if hasattr(x, '__parts__'):
        return x.__parts__()
    return list(x)


def has_gap(x):
    return any(isinstance(p, Gap) for p in parts_of(x))


class DList(list):
    """list; parts are elements and gaps"""

    def __init__(self, it=()):
        list.__init__(self)
        self.parts = list(parts_of(it)) if not isinstance(it, list) or isinstance(it, DList) else list(it)
        newborn(self)

    def __parts__(self):
        return self.parts

    def nogap(self, what):
        if any(isinstance(p, Gap) for p in self.parts):
            raise Unsupported('%s of a list of unknown length' % what)

    def length(self):
        n, sym = 0, None
        for p in self.parts:
            if isinstance(p, Gap):
                sym = p.n if sym is None else sym + p.n
            else:
                n += 1
        return n if sym is None else sym + n

    def __len__(self):
        n = self.length()
        if isinstance(n, int):
            return n
        raise Unsupported('len() by a builtin')

    def __bool__(self):
        if any(not isinstance(p, Gap) for p in self.parts):
            return True
        n = self.length()
        return bool(n > 0) if not isinstance(n, int) else n > 0

    def __iter__(self):
        self.nogap('iteration')
        return iter(list(self.parts))

    def __reversed__(self):
        return iter(DList(reversed(self.parts)))

    def append(self, x):
        if E.mut(self, 'append', x) is False:
            return
        self.parts.append(x)

    def extend(self, it):
        E.mut(self, 'extend', it)
        self.parts.extend(parts_of(it))

    def insert(self, i, x):
        E.mut(self, 'insert')
        if not (isinstance(i, int) and i == 0):
            self.nogap('insert')
        self.parts.insert(i, x)

    def pop(self, i=-1):
        E.mut(self, 'pop')
        self.nogap('pop')
        return self.parts.pop(i)

    def remove(self, x):
        E.mut(self, 'remove')
        i = self.index(x)
        self.parts.pop(i)

    def clear(self):
        E.mut(self, 'clear')
        self.parts = []

    def reverse(self):
        E.mut(self, 'reverse')
        self.parts.reverse()

    def sort(self, key=None, reverse=False):
        E.mut(self, 'sort')
        from dv import stubs
        self.parts = parts_of(stubs.b_sorted(self, key=key, reverse=reverse))

    def index(self, x):
        self.nogap('index')
        for i, p in enumerate(self.parts):
            if p is x or truth(ueq(p, x)):
                return i
        raise ValueError('not in list')

    def count(self, x):
        self.nogap('count')
        return sum(1 for p in self.parts if truth(ueq(p, x)))

    def copy(self):
        return DList(self)

    def __copy__(self):
        return DList(self)

    def __deepcopy__(self, memo):
        import copy
        return DList([p if isinstance(p, Gap) else copy.deepcopy(p, memo) for p in self.parts])

    def find(self, i):
        """element at index i (forks over the parts)"""
        n = self.length()
        if isinstance(i, int) and isinstance(n, int):
            return self.parts[i]
        i = lift(i)
        if isinstance(n, int) and isinstance(i.const(), int):
            return self.parts[i.const()]
        neg = bool(i < 0)
        if neg:
            i = i + n
        if not (AND(i >= 0, lift(n) > i)):
            raise IndexError('list index out of range')
        pos = 0
        for k, p in enumerate(self.parts):
            if isinstance(p, Gap):
                if AND(i >= pos, i < p.n + pos):
                    for last in (0, 1):
                        if getattr(p, 'at_index', None) is not None and hasattr(p, 'interval') and \
                                holds(veq(i - pos, p.n - 1 if last else 0)):
                            # the first or last element of the gap becomes a known one
                            lo, hi = p.interval
                            x = p.at_index(SNum(hi - 1 if last else lo))
                            g = Gap(p.base, None, n=p.n - 1)
                            g.at_index = p.at_index
                            g.interval = (lo, hi - 1) if last else (lo + 1, hi)

                            def fresh(g=g):
                                j = E.int('i')
                                E.assume(z3.And(j.t >= g.interval[0], j.t < g.interval[1]))
                                return g.at_index(j)
                            g.fresh_ = fresh
                            self.parts[k:k + 1] = [g, x] if last else [x, g]
                            return x
                    return E_gap_element(p, i - pos)
                pos = p.n + pos
            else:
                if lift(i) == pos:
                    return p
                pos = pos + 1
        raise PathEnd()

    def __getitem__(self, i):
        if isinstance(i, slice):
            if (i.start, i.stop, i.step) == (None, None, None):
                return DList(self)
            if i.start in (None, 0) and i.step is None and isinstance(i.stop, int) and 0 <= i.stop <= len(self.parts) and \
                    not any(isinstance(p, Gap) for p in self.parts[:i.stop]):
                return DList(self.parts[:i.stop])
            if (i.start, i.stop, i.step) == (None, None, -1):
                return DList(self.parts[::-1])
            n = len([p for p in self.parts])
            if not any(isinstance(p, Gap) for p in self.parts):
                if any(isinstance(v, SNum) for v in (i.start, i.stop, i.step)):
                    raise Unsupported('symbolic list slice')
                return DList(self.parts[i])
            # leading/trailing elements only
            if i.start is None and i.step is None and isinstance(i.stop, int) and i.stop == -1 and \
                    not isinstance(self.parts[-1], Gap):
                return DList(self.parts[:-1])
            if i.step is None and isinstance(i.start, int) and i.start == 1 and i.stop is None and \
                    not isinstance(self.parts[0], Gap):
                return DList(self.parts[1:])
            raise Unsupported('slice of a list of unknown length')
        return self.find(i)

    def __setitem__(self, i, v):
        E.mut(self, 'setitem', (i, v))
        self.nogap('assignment to element')
        if isinstance(i, SNum):
            i = i.__index__()
        self.parts[i] = v

    def __delitem__(self, i):
        E.mut(self, 'delitem')
        self.nogap('deletion')
        del self.parts[i]

    def __contains__(self, x):
        r = OR(*[SBool(zb(ueq(p, x))) for p in self.parts if not isinstance(p, Gap)])
        if bool(r):
            return True
        for p in self.parts:
            if isinstance(p, Gap) and truth_gap_in(p, x):
                return True
        return False

    def __add__(self, o):
        return DList(self.parts + list(parts_of(o)))

    def __radd__(self, o):
        return DList(list(parts_of(o)) + self.parts)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __mul__(self, k):
        self.nogap('repetition')
        if isinstance(k, SNum):
            k = k.__index__()
        return DList(self.parts * k)
    __rmul__ = __mul__

    def __eq__(self, o):
        if isinstance(o, (list, tuple)):
            r = veq(self, o)
            return r if isinstance(r, (bool, SBool)) else r
        return False

    def __ne__(self, o):
        return NOT(self == o)

    __hash__ = None

    def __repr__(self):
        return 'DList(%r)' % (self.parts,)


def truth_gap_in(gap, x):
    """x in gap: elements of a gap are distinct objects from all others; values are unknown"""
    if hasattr(x, '_birth') and not isinstance(x, (SStr, SNum)):
        return False
    raise Unsupported('membership in a list of unknown length')


def E_gap_element(gap, pos):
    """element at a position inside of a gap: the same one for the same position; it cannot be modified, because the
    gap would not know (the objects born with it are recorded)"""
    key = str(simp(lift(pos).t))
    memo = gap.__dict__.setdefault('elements', {})
    if key not in memo:
        t = E.clock
        memo[key] = gap.fresh()
        E.phantoms.append((t, E.clock))
    return memo[key]


def truth(c):
    return bool(c)


def ueq(a, b):
    """Python ==, guarded"""
    if a is b:
        return True
    if isinstance(a, SArr) or isinstance(b, SArr):
        raise Unsupported('comparison of arrays')
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        rs = [ueq(x, y) for x, y in zip(a, b)]
        if any(r is False for r in rs):
            return False
        return AND(*rs)
    return a == b


class DDict(dict):
    """dict whose keys may be symbolic; entries in insertion order"""

    def __init__(self, *a, **k):
        dict.__init__(self)
        newborn(self)
        self.ks, self.vs = [], []
        for src in a:
            if isinstance(src, dict):
                for key in src.keys():
                    self._put(key, src[key])
            else:
                for key, v in src:
                    self._put(key, v)
        for key, v in k.items():
            self._put(key, v)

    def _find(self, key):
        for i, k in enumerate(self.ks):
            if k is key:
                return i
            if isinstance(k, str) and isinstance(key, str):
                if k == key:
                    return i
                continue
            r = ueq(k, key)
            if r is False or r is NotImplemented:
                continue
            if r is True or bool(r):
                return i
        return None

    def _put(self, key, v):
        i = self._find(key)
        if i is None:
            self.ks.append(key)
            self.vs.append(v)
        else:
            self.vs[i] = v

    def __setitem__(self, key, v):
        if E is not None:
            if E.mut(self, 'setitem', (key, v)) is False:
                return
        self._put(key, v)

    def __getitem__(self, key):
        i = self._find(key)
        if i is None:
            return self.__missing__(key)
        return self.vs[i]

    def __missing__(self, key):
        raise KeyError(key)

    def __delitem__(self, key):
        E.mut(self, 'delitem', key)
        i = self._find(key)
        if i is None:
            raise KeyError(key)
        del self.ks[i]
        del self.vs[i]

    def __contains__(self, key):
        return self._find(key) is not None

    def __len__(self):
        return len(self.ks)

    def length(self):
        return len(self.ks)

    def __bool__(self):
        return bool(self.ks)

    def __iter__(self):
        return iter(list(self.ks))

    def keys(self):
        return DList(self.ks)

    def values(self):
        return DList(self.vs)

    def items(self):
        return DList([(k, v) for k, v in zip(self.ks, self.vs)])

    def get(self, key, default=None):
        i = self._find(key)
        return default if i is None else self.vs[i]

    def setdefault(self, key, default=None):
        i = self._find(key)
        if i is None:
            self[key] = default
            i = self._find(key)
            return default if i is None else self.vs[i]
        return self.vs[i]

    def pop(self, key, *default):
        E.mut(self, 'pop', key)
        i = self._find(key)
        if i is None:
            if default:
                return default[0]
            raise KeyError(key)
        v = self.vs[i]
        del self.ks[i]
        del self.vs[i]
        return v

    def popitem(self):
        E.mut(self, 'popitem')
        return self.ks.pop(), self.vs.pop()

    def clear(self):
        E.mut(self, 'clear')
        self.ks, self.vs = [], []

    def update(self, *a, **k):
        for src in a:
            if hasattr(src, 'keys'):
                for key in parts_of(src.keys()):
                    self[key] = src[key]
            else:
                for key, v in src:
                    self[key] = v
        for key, v in k.items():
            self[key] = v

    def copy(self):
        return self.__class__(self) if type(self) is DDict else DDict(self)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        import copy
        d = DDict()
        for k, v in zip(self.ks, self.vs):
            d._put(k, copy.deepcopy(v, memo))
        return d

    def __eq__(self, o):
        if not isinstance(o, dict):
            return False
        if len(self) != len(o):
            return False
        rs = []
        for k in self.ks:
            if k not in o:
                return False
            rs.append(ueq(self[k], o[k]))
        return all(bool(r) for r in rs)

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __repr__(self):
        return 'DDict(%s)' % ', '.join('%r: %r' % kv for kv in zip(self.ks, self.vs))


class DDefaultDict(DDict):
    def __init__(self, factory=None, *a, **k):
        DDict.__init__(self, *a, **k)
        self.default_factory = factory

    def __missing__(self, key):
        if self.default_factory is None:
            raise KeyError(key)
        v = self.default_factory()
        self[key] = v
        return v


# ---------------------------------------------------------------- loops over gaps
def gap_iteration(gap, apply_effects, what):
    """Common part of loops and comprehensions over a gap: generator of ('G', element) or ('M', None).

    G: one iteration on an arbitrary element after an arbitrary number of earlier ones; the path ends afterwards.
    M: all iterations done; the effects found in G are applied."""


class LoopState(object):
    pass


def node_key():
    return tuple(E.taken)


def gap_choice(what):
    """-> (is_generic, registry entry).  The generic branch is explored first (and again until its effects on outer
    objects are stable), then the branch behind the gap."""
    key = (node_key(), what)
    reg = E.registry.setdefault(key, {'effects': [], 'seen': 0, 'rounds': 0})
    k = len(E.taken)
    if k < len(E.prefix):
        d = E.prefix[k]
        if d == 1 and k == len(E.prefix) - 1 and len(reg['effects']) > reg['seen']:
            # new effects since the generic branch was explored: explore it again, then come back
            reg['seen'] = len(reg['effects'])
            reg['rounds'] += 1
            if reg['rounds'] > 6:
                raise Unsupported('effects of a loop do not become stable')
            E.work.append(tuple(E.prefix))
            E.work.append(tuple(E.taken) + (0,))
            raise PathEnd()
    else:
        d = 0
        E.work.append(tuple(E.taken) + (1,))
    E.taken.append(d)
    return d == 0, reg


def apply_effects(reg):
    for eff in list(reg['effects']):
        kind = eff[0]
        if kind == 'append':
            obj = find_obj(eff[1])
            if obj is None:
                raise Unsupported('list of a loop effect not found')
            k = len(E.pc)
            g = Gap('app', eff[2] or _no_element)
            E.loose.add(g.n.t.decl().name())
            E.loose_bounds.update(p.get_id() for p in E.pc[k:])
            obj.parts.append(g)
        elif kind == 'add':
            obj = find_obj(eff[1])
            if E.choose(2, 'effect'):
                obj.add_raw(eff[2])
        elif kind == 'cells':
            # stores of the iterations at their own index along one axis: these cells are unknown now
            obj = find_obj(eff[1])
            if obj is None:
                raise Unsupported('array of a loop effect not found')
            forget_cells(obj, eff[2], eff[3], eff[4])
        elif kind == 'set':
            obj = find_obj(eff[1])
            if obj is None:
                raise Unsupported('object of a loop effect not found')
            if E.choose(2, 'effect'):
                put_effect(obj, eff[2], eff[3])
        else:
            raise Unsupported('loop effect %s' % kind)


def forget_cells(buf, d, lo, hi):
    n, old = len(buf.shape), buf.fn
    sorts = [z3.IntSort()] * n + [z3.BoolSort() if buf.dtype == 'b' else z3.IntSort() if buf.dtype == 'i' else
                                  z3.RealSort()]
    f = [z3.Function(E.opaque_name('cells'), *sorts) for _ in range(2 if buf.dtype == 'c' else 1)]

    def fn(*idx):
        ts = [int_t(i) for i in idx]
        c = simp(z3.And(ts[d] >= lo, ts[d] < hi))
        if z3.is_false(c):
            return old(*idx)
        v = [g(*ts) for g in f]
        new = SCplx(SNum(v[0]), SNum(v[1])) if buf.dtype == 'c' else SBool(v[0]) if buf.dtype == 'b' else SNum(v[0])
        return new if z3.is_true(c) else ite(c, new, old(*idx))
    buf.fn = fn
    buf.version += 1


def own_cell(item, gap, obj, payload):
    """a store a[..., i, ...] = v of iteration i of a loop over a range: (axis, first, last + 1)"""
    if not isinstance(obj, Buffer) or payload is None or not hasattr(gap, 'interval') or not isinstance(item, SNum):
        return None
    a, key, value = payload
    if a.index is not None or len(a.shape) != len(obj.shape):
        return None
    key = key if isinstance(key, tuple) else (key,)
    if any(k is None or k is Ellipsis for k in key):
        return None
    for d, k in enumerate(key):
        if isinstance(k, SNum) and k.t.eq(item.t) and E.entails(item.t >= 0):
            return d, gap.interval[0], gap.interval[1]
    return None


def put_effect(obj, key, value):
    if isinstance(obj, DDict):
        obj._put(key, value)
    else:
        object.__setattr__(obj, key, value)


def _no_element():
    raise Unsupported('element of a list filled by a loop over unknown elements')


OBJ = {}


def find_obj(b):
    return E.objs.get(('birth', b))


def newborn(obj):
    """give a mutable object its age and make it findable by it"""
    b = E.tick() if E is not None else 0
    object.__setattr__(obj, '_birth', b)
    if E is not None:
        E.objs[('birth', b)] = obj


def const_value(v):
    return v is None or isinstance(v, (str, int, float, bool)) or (
        isinstance(v, tuple) and all(const_value(x) for x in v))


def generic_context(reg, gap):
    start = E.tick()
    hooks = getattr(E, 'hooks', [])

    def effect(obj, kind, payload):
        for h in hooks:
            if h(obj, kind, payload):
                return
        b = birth(obj)
        if kind == 'store':
            own = own_cell(ctx.get('item'), gap, obj, payload)
            if own is not None:
                e = ('cells', b) + own
                if not any(x[:3] == e[:3] for x in reg['effects']):
                    reg['effects'].append(e)
                return
        if kind == 'append' and isinstance(obj, DList) and b is not None:
            f = getattr(E, 'append_fresh', None)
            e = ('append', b, f(payload) if f is not None else None)
            if not any(x[:2] == e[:2] for x in reg['effects']):
                reg['effects'].append(e)
            return
        if kind == 'add' and b is not None and value_age(payload) < start:
            e = ('add', b, payload)
            for x in reg['effects']:
                if x[:2] == e[:2] and veq_safe(x[2], payload):
                    return
            reg['effects'].append(e)
            return
        if kind in ('setitem', 'setattr') and b is not None and payload is not None and const_value(payload[0]) and \
                (const_value(payload[1]) or birth(payload[1]) is not None and birth(payload[1]) < start or
                 value_age(payload[1]) < start):
            e = ('set', b, payload[0], payload[1])
            for x in reg['effects']:
                if x[:3] == e[:3]:
                    if veq_safe(x[3], e[3]):
                        return
                    raise Unsupported('a loop sets %r of an outer object to different values' % (payload[0],))
            reg['effects'].append(e)
            return
        raise Unsupported('a loop over unknown elements modifies an outer %s (%s %r)' % (
            type(obj).__name__, kind, payload[0] if isinstance(payload, tuple) and payload else ''))
    ctx = {'start': start, 'effect': effect, 'gap': gap}
    return ctx


def term_age(t):
    """tick at which the youngest symbol of a term was made"""
    age, todo, seen = 0, [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                age = max(age, E.symage.get(x.decl().name(), 0))
            todo.extend(x.children())
    return age


def value_age(v):
    """tick of the youngest symbol in a value"""
    if const_value(v):
        return 0
    if isinstance(v, SNum):
        return term_age(v.t)
    if isinstance(v, SBool):
        return term_age(v.t)
    if isinstance(v, SUTC):
        return value_age(v.s)
    if isinstance(v, SPhase):
        return term_age(v.key.t)
    if isinstance(v, SStr):
        return max([0] + [0 if isinstance(p, str) else term_age(p.term) if isinstance(p.term, z3.ExprRef)
                          else value_age(p.term) for p in v.pieces])
    if isinstance(v, (tuple,)):
        return max([0] + [value_age(x) for x in v])
    if isinstance(v, OpaqueObj):
        return max([0] + [value_age(x) for x in v.args])
    return 1 << 60


def veq_safe(a, b):
    try:
        return holds(veq(a, b))
    except EngineExc:
        return a is b
