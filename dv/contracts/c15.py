"""C15: results depend on the arguments only (rf.simple_model: stretch_delay_times and its cache, load_model and its
cache; rf.util.minimal_example_rf, minimal_example_Srf)

Induction over histories: the model arrays are never written (frame), a returned array shares no memory with the
model or its cache (changed by the caller in the contracts below), and a call reads at most what earlier calls have
stored; two arbitrary earlier calls and arbitrary changes of their results leave the result of the next call as it is
on a new model."""
import z3
from dv.contracts.lib import *
from dv.contracts.c16 import layered

CONTRACTS, contract = registry()


class Delays(object):
    """calculate_delay_times by its contract (C16): a function of slowness and upper-case phase, a new array each
    time"""

    def __init__(self, E, N):
        self.N = N
        self.D = z3.Function('D', z3.RealSort(), z3.IntSort(), z3.IntSort(), z3.RealSort())
        self.last = z3.Function('reach', z3.RealSort(), z3.IntSort(), z3.IntSort())

    def __call__(self, slowness, phase='PS'):
        need(isinstance(phase, SPhase), 'phase')
        p, key = core.real_t(slowness), phase.key.t
        core.E.assume(self.last(p, key) >= 1)
        return SArr((self.N,), lambda i: SNum(self.D(p, key, core.int_t(i)), core.int_t(i) >= self.last(p, key)), 'f')


def twin(E, load):
    """two models with the same layers"""
    m, N = layered(E, load)
    f = object.__new__(type(m))
    for k in ('vp', 'vs', 'z', 'dz'):
        setattr(f, k, getattr(m, k).copy())
    f.t_ref = core.DDict()
    return m, f, N


def spoil(E, r):
    """the caller changes what was returned"""
    for a in r if isinstance(r, tuple) else (r,):
        if isinstance(a, SArr):
            a *= 3
            a += E.real('spoil')


@contract('rf.simple_model.SimpleModel.stretch_delay_times', expect=['length', 'result', 'rejected', 'model'],
          cover=['end', 'twice'], max_paths=8000,
          assumptions=['stretch_delay_times: calculate_delay_times enters by its contract (C16), proved to be '
                       'independent of earlier calls below'])
def stretch(E, load):
    """delay tables after two arbitrary earlier calls, whose results were overwritten by the caller, are those of a
    new model; the model is unchanged"""
    m, f, N = twin(E, load)
    D = Delays(E, N)
    for x in (m, f):
        object.__setattr__(x, 'calculate_delay_times', D)
    frozen = {k: core.freeze(getattr(m, k)) for k in ('vp', 'vs', 'z', 'dz')}
    p, ref = E.real('p'), E.real('ref')
    ph = SPhase('phase')
    # an earlier call with 1: same phase, other reference slowness, 2: other phase, same reference, 3: the same of both
    kinds = ((0, 0), (1, 0), (2, 0), (3, 0), (1, 2), (2, 1), (2, 3), (3, 1))[E.choose(8)]
    for i, kind in enumerate(kinds):
        if kind == 0:
            break
        ph0 = ph
        if kind == 2:
            ph0 = SPhase('earlier%d' % i)
            E.assume(ph0.key.t != ph.key.t)
        r0 = ref if kind == 2 else E.real('ref%d' % i)
        if kind == 1:
            E.assume(r0.t != ref.t)
        if kind == 3:
            E.assume(r0.t == ref.t)
        try:
            spoil(E, m.stretch_delay_times(E.real('p%d' % i), ph0, r0))
        except ValueError:
            raise core.PathEnd()
    try:
        want = f.stretch_delay_times(p, phase=ph, ref=ref)
    except ValueError:
        want = None
    try:
        got = m.stretch_delay_times(p, phase=ph, ref=ref)
    except ValueError:
        got = None
    if want is None or got is None:
        E.prove('rejected', want is None and got is None)
        return
    E.prove('length', AND(*[veq(a.shape[0], b.shape[0]) for a, b in zip(got, want)]))
    k = E.int('k', 0)
    E.assume(k.t < lift(want[0].shape[0]).t)
    E.prove('result', AND(*[veq(a.at(k), b.at(k)) for a, b in zip(got, want)]))
    E.prove('model', AND(*[core.arr_eq(getattr(m, a), frozen[a]) for a in frozen]))
    E.cover('twice' if all(kinds) else 'end')


@contract('rf.simple_model.SimpleModel.calculate_vertical_slowness', 'rf.simple_model.SimpleModel.calculate_delay_times',
          'rf.simple_model.SimpleModel.ppoint_distance', expect=['result', 'model'],
          cover=['vertical', 'delay', 'distance'],
          assumptions=['ppoint_distance: preconditions as in C17'])
def others(E, load):
    """vertical slowness, delay times and piercing distance after an arbitrary earlier call (whose result was
    overwritten) are those of a new model; the model is unchanged"""
    m, f, N = twin(E, load)
    E.assume(N.t >= 3)
    frozen = {k: core.freeze(getattr(m, k)) for k in ('vp', 'vs', 'z', 'dz')}
    kind, earlier = E.choose(3), E.choose(4)
    p, ph = E.real('p'), SPhase('phase')
    ph0, p0 = ph, E.real('p0')
    depth = E.real('depth')

    def ask(model, kind, p, ph, depth):
        if kind == 0:
            return model.calculate_vertical_slowness(p, phase=ph)
        if kind == 1:
            return model.calculate_delay_times(p, phase=ph)
        E.assume(z3.And(m.z.at(0).t <= depth.t, depth.t < m.z.at(N - 1).t))
        try:
            return model.ppoint_distance(depth, p, phase=ph)
        except (ValueError, IndexError):
            raise core.PathEnd()
    if earlier < 3:
        spoil(E, ask(m, earlier, p0, ph0, E.real('depth0')))
    got = ask(m, kind, p, ph, depth)
    want = ask(f, kind, p, ph, depth)
    k = E.int('k', 0)
    E.assume(k.t < N.t)
    for g, w in zip(got, want) if isinstance(want, tuple) else [(got, want)]:
        if isinstance(w, SArr):
            need(isinstance(g, SArr), 'no array')
            s = vars(w).get('summands')
            if s is not None:
                need(vars(g).get('summands') is not None, 'no running sum')
                g, w = g.summands, s
            E.prove('result', AND(veq(g.shape[0], w.shape[0]), veq(g.at(k), w.at(k))))
        else:
            E.prove('result', veq(g, w))
    E.prove('model', AND(*[core.arr_eq(getattr(m, a), frozen[a]) for a in frozen]))
    E.cover(('vertical', 'delay', 'distance')[kind])


def table(E, known, name):
    """content of a model file, a function of its name"""
    for n, t in known:
        if holds(veq(n, name)):
            return [a.copy() for a in t]
    N = E.int('N', 2)
    cols = 3 + E.choose(2)
    t = [SArr.symbolic(E.name('col'), N) for _ in range(3)]
    if cols == 4:
        fn = z3.Function(E.name('n'), z3.IntSort(), z3.IntSort())

        def at(i):
            v = fn(core.int_t(i))
            E.assume(v >= 0)
            return SNum(z3.ToReal(v))
        t.append(SArr((N,), at, 'f'))
    known.append((name, t))
    return [a.copy() for a in t]


@contract('rf.simple_model.load_model', expect=['arguments', 'cache'], cover=['same', 'other', 'default'],
          assumptions=['numpy.loadtxt returns the columns of the file, which do not change between calls; '
                       'SimpleModel.__init__ enters by its contract (C26), a function of the columns'])
def models(E, load):
    """a model holds the columns of the named file (iasp91: the file of the package) whatever was loaded before; the
    stored reference delays are those of this model"""
    mod = load('rf.simple_model')
    made = []

    class Model(object):
        def __init__(self, z, vp, vs, n=None):
            made.append(self)
            self.args = (z, vp, vs, n)
            self.t_ref = {}
    mod.SimpleModel = Model
    known = []

    def loadtxt(fname, *a, **k):
        need(not a and k == {'unpack': True}, 'loadtxt')
        t = table(E, known, fname)
        return core.DList(t)
    E.loadtxt = loadtxt
    mod.resource_filename = lambda package, name: '/%s/%s' % (package, name)
    path = lambda a: '/rf/data/iasp91.dat' if isinstance(a, str) else a
    x, y = SStr.word('x'), SStr.word('y')
    for v in (x, y):
        E.assume(zb(veq(v, 'iasp91')) == z3.BoolVal(False))
        E.assume(zb(veq(v, '/rf/data/iasp91.dat')) == z3.BoolVal(False))
    other = E.choose(3)
    first, second = ((x, x), (x, 'iasp91'), ('iasp91', x))[other] if not E.choose(2) else ((x, y), ('iasp91', 'iasp91'),
                                                                                        (y, x))[other]
    a = mod.load_model(first)
    b = mod.load_model(second) if second != 'iasp91' or E.choose(2) else mod.load_model()
    c = mod.load_model(first)
    for r, name in ((a, first), (b, second), (c, first)):
        need(isinstance(r, Model), 'no model')
        want = table(E, known, path(name))
        z, vp, vs, n = r.args
        k = E.int(E.name('k'), 0)
        E.assume(k.t < lift(want[0].shape[0]).t)
        conds = [veq(g.at(k), w.at(k)) for g, w in zip((z, vp, vs), want)]
        conds += [veq(g.shape[0], w.shape[0]) for g, w in zip((z, vp, vs), want)]
        if len(want) == 4:
            need(n is not None, 'support points')
            conds += [veq(n.at(k), want[3].at(k)), n.dtype == int]
        else:
            conds += [n is None]
        E.prove('arguments', AND(*conds))
    # different files have their own model, and so their own reference delays
    E.prove('cache', AND(IMPLIES(NOT(veq(first, second)), a is not b), len(a.t_ref) == 0, len(b.t_ref) == 0))
    E.cover('same' if first is second else 'default' if 'iasp91' in (first, second) else 'other')


class Example(object):
    """the streams read_rf returns and the steps by name, per source"""

    def __init__(self, E, rs):
        self.E, self.rs, self.log, self.read = E, rs, [], []

    def make(self, base):
        return trace(self.E, self.rs.RFTrace, base, present=('onset', 'slowness'), unknown=('type', 'phase', 'moveout'))


@contract('rf.util.minimal_example_rf', 'rf.util.minimal_example_Srf', expect=['samples', 'headers', 'count', 'own'],
          cover=['P', 'S'],
          assumptions=['examples: the steps applied to the example data enter as functions that return the stream'])
def examples(E, load):
    """what is handed out is a copy: traces removed, samples and headers changed by a caller, as well as the other
    example, do not show in the next one; nothing is shared with streams handed out earlier"""
    util, rs = load('rf.util'), load('rf.rfstream')
    read = []

    def read_rf(*a, **k):
        b = 'S' if a or k else 'P'
        ts = [trace(E, rs.RFTrace, '%s%d_%d' % (b, i, len(read)), present=('onset', 'slowness'),
                    values={'kind': b, 'processing': DList(['made'])}) for i in range(2)]
        read.append([Snap(t) for t in ts])
        return stream(rs.RFStream, ts)
    rs.read_rf = read_rf
    rs.rfstats = lambda s, *a, **k: s
    for f in ('filter', 'trim2', 'rf', 'moveout', 'ppoints'):
        setattr(rs.RFStream, f, lambda self, *a, **k: self)
    kinds = 'PS'[E.choose(2)], 'PS'[E.choose(2)]
    f = {'P': util.minimal_example_rf, 'S': util.minimal_example_Srf}
    changed = []
    for i, k in enumerate(kinds):
        s = f[k]()
        changed.append(s)
        how = E.choose(3)
        if how == 0:
            s.traces[0].data[:] = E.real('zero')
            s.traces[0].stats.slowness = E.real('slow')
            s.traces[0].stats['kind'] = 'X'
            s.traces[0].stats.processing.append('changed')
        elif how == 1:
            s.traces[0].data *= 2
            s.traces.pop()
        else:
            s.traces[1].data = s.traces[0].data
            s.traces.reverse()
    for k in 'PS':
        r = f[k]()
        E.prove('own', not any(r is c or r.traces is c.traces or any(x is y or x.stats is y.stats for x in r for y in c)
                               for c in changed))
        E.prove('count', len(r.traces) == 2)
        own = [q for q in read if q[0].vs[q[0].ks.index('kind')] == k]
        E.prove('headers', bool(own))
        if not own:
            return
        for t, sn in zip(r.traces, own[-1]):
            # the data as read (those of the last time it was read are the same as ever)
            E.prove('samples', sn.samples(t.data))
            E.prove('headers', AND(sn.headers(t.stats, ('processing',)), veq(list(t.stats['processing']), ['made'])))
        E.cover(k)
