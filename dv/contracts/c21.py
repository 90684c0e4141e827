"""C21: harmonic decomposition (rf.harmonics)"""
import z3
from dv.contracts.lib import *

CONTRACTS, contract = registry()
LIB = ['obspy select(channel="*X") yields the traces of component X, sort(["event_time"]) sorts by event time in place',
       'numpy.linalg.lstsq returns a minimiser of the squared residual, a function of matrix and vector',
       'numpy.fft.fft and ifft are functions of the array, inverse to each other and linear',
       'cos and sin are functions of the angle; radians(x) = x pi / 180']
TERMS = ('constant', 'cos', 'sin', 'cos2', 'sin2')


def angle(x):
    return x * stubs.PI() / 180


def row_one(b, azim):
    """constant, cos, sin, cos2, sin2 of back azimuth minus azimuth"""
    c, s = stubs.np_cos, stubs.np_sin
    a = angle(b - azim)
    return [lift(1), c(a), s(a), c(2 * a), s(2 * a)]


def rows_two(b, azim, scalars):
    """modelled and unmodelled terms; transverse: shifted by a quarter period"""
    one, c1, s1, c2, s2 = row_one(b, azim)
    z = lift(0)
    return ([one * scalars[0], c1, s1, c2, s2, z, c1, s1, c2, s2],
            [z, -s1, c1, -s2, c2, one * scalars[1], s1, -c1, s2, -c2])


def pick_col(rows, j):
    r = rows[-1]
    for k in range(len(rows) - 2, -1, -1):
        r = ite(core.int_t(j) == k, rows[k], r)
    return r


def matrix(n, B, azim, two, scalars):
    if not two:
        return SArr((n, 5), lambda i, j: pick_col(row_one(B(i), azim), j), 'f')

    def f(i, j):
        t = core.int_t(i)
        r = pick_col(rows_two(B(SNum(t)), azim, scalars)[0], j)
        q = pick_col(rows_two(B(SNum(t - core.int_t(n))), azim, scalars)[1], j)
        return ite(t < core.int_t(n), r, q)
    return SArr((2 * n, 10), f, 'f')


@contract('rf.harmonics.decomp_one, rf.harmonics.decomp_two', expect=['shape', 'entry'], cover=['one', 'two'], assumptions=LIB)
def jacobian(E, load):
    """entries of the matrix for any number of back azimuths"""
    mod = load('rf.harmonics')
    n = E.int('n', 1)
    b = SArr.symbolic('baz', n)
    two, given = E.choose(2), E.choose(2)
    azim, sc = lift(0), (lift(3), SNum(z3.Q(3, 10)))
    kw = {}
    if given:
        azim = kw['azim'] = E.real('azim')
        if two:
            sc = kw['scalars'] = (E.real('s0'), E.real('s1'))
    J = (mod.decomp_two if two else mod.decomp_one)(b, **kw)
    want = matrix(n, b.at, azim, two, sc)
    E.prove('shape', AND(*[veq(x, y) for x, y in zip(J.shape, want.shape)]))
    i = E.int('i', 0)
    E.assume(i.t < core.int_t(want.shape[0]))
    for j in range(10 if two else 5):
        E.prove('entry', veq(J.at(i, j), want.at(i, j)))
    E.cover('two' if two else 'one')


class World(object):
    """stream [first, any traces]; component c has n traces, sorted by event time with back azimuth B_c(i), samples X_c(i, k)"""

    def __init__(self, E, load, empty='', headers=()):
        self.rs = load('rf.rfstream')
        R = self.rs.RFStream
        kw = dict(present=('onset', 'event_time', 'back_azimuth') + tuple(headers), unknown=('phase', 'type', 'distance'))
        self.npts, self.n = E.int('npts', 1), E.int('n', 1)
        self.empty, self.fns, self.sel = empty, {}, []
        self.first = trace(E, self.rs.RFTrace, 'first', npts=self.npts, **kw)
        self.rest = traces(E, self.rs.RFTrace, 'rest', **kw)
        self.s = stream(R, [self.first, self.rest])
        self.E = E

        def select(s, channel=None, component=None, id=None):
            need(s is self.s and id is None, 'selection')
            c = component if component is not None else channel[-1]
            need(channel is None or channel == '*' + c, 'selection')
            out = stream(R, [])
            object.__setattr__(out, 'traces', DList(self.gap(c, None)))
            object.__setattr__(out, 'letter', c)
            self.sel.append(out)
            return out

        def sort(s, keys, reverse):
            need(any(s is x for x in self.sel), 'sort of a selection')
            object.__setattr__(s, 'traces', DList(self.gap(s.letter, (tuple(keys), bool(reverse)))))
            return s
        E.select_hook, E.sort_hook = select, sort

    def fn(self, c, order):
        k = (c, order)
        if k not in self.fns:
            E = self.E
            self.fns[k] = (z3.Function(E.name('baz_' + c), z3.IntSort(), z3.RealSort()),
                           z3.Function(E.name('x_' + c), z3.IntSort(), z3.IntSort(), z3.RealSort()))
        return self.fns[k]

    def gap(self, c, order):
        if c in self.empty:
            return []
        E = self.E
        b, x = self.fn(c, order)

        def at(i):
            t = core.int_t(i)
            tr = self.rs.RFTrace.__new__(self.rs.RFTrace)
            core.newborn(tr)
            object.__setattr__(tr, 'log', [])
            st = stubs.Stats()
            st._put('npts', self.npts)
            st._put('back_azimuth', SNum(b(t)))
            object.__setattr__(tr, 'stats', st)
            object.__setattr__(tr, 'data', SArr((self.npts,), lambda k: SNum(x(t, core.int_t(k))), 'f'))
            return tr

        def fresh():
            i = E.int('i', 0)
            E.assume(i.t < self.n.t)
            return at(i)
        g = Gap('traces_' + c, fresh, n=self.n)
        g.interval = (z3.IntVal(0), self.n.t)
        g.at_index = at
        return [g]


SORTED = (('event_time',), False)
DROPPED = ('processing', 'event_id', 'event_depth', 'event_latitude', 'event_longitude', 'event_magnitude',
           'inclination', 'slowness', 'event_time', 'back_azimuth')


def decomposition(E, load, choices):
    """at an arbitrary sample (frequency) the coefficients are the least-squares solution for matrix and data ordered by
    event time; labels of the result; the input is not changed"""
    mod = load('rf.harmonics')
    comps = choices[E.choose(len(choices))]
    variant = E.choose(3)
    freq = E.choose(2)
    w = World(E, load, headers=DROPPED[1:8] if variant == 1 else ())
    two = len(comps) == 2
    kw, azim, sc = {}, lift(0), (lift(3), SNum(z3.Q(3, 10)))
    if variant:
        azim = kw['azim'] = E.real('azim')
        if two:
            sc = kw['scalars'] = (E.real('s0'), E.real('s1'))
    r = E.int('sample', 0)
    E.assume(r.t < w.npts.t)
    E.range_reps = [r]
    inverse = []

    class Fourier(object):
        fft = staticmethod(stubs.np_fft_fft)

        @staticmethod
        def ifft(a):
            need(isinstance(a, SArr), 'argument of ifft')
            x = stubs.np_fft_ifft(a)
            inverse.append((core.freeze(a), core.freeze(x)))
            return x
    mod.np.fft = Fourier
    snap = Snap(w.first)
    f = getattr(mod.harmonics, '__wrapped__', mod.harmonics)
    args = dict(components=comps, **kw)
    if freq or variant == 2:
        args['method'] = 'freq' if freq else 'time'
    out = f(w.s, **args)
    E.cover(comps)
    E.cover('freq' if freq else 'time')
    b, x = w.fn(comps[0], SORTED)
    if two:
        y = w.fn('T', SORTED)[1]
    row = lambda g, i: SArr((w.npts,), lambda k: SNum(g(core.int_t(i), core.int_t(k))), 'f')
    at = (lambda g, i: stubs.np_fft_fft(row(g, i)).at(r)) if freq else (lambda g, i: SNum(g(core.int_t(i), r.t)))
    if two:
        rhs = SArr((2 * w.n,), lambda i: ite(core.int_t(i) < w.n.t, at(x, i), at(y, lift(i) - w.n)), 'c' if freq else 'f')
    else:
        rhs = SArr((w.n,), lambda i: at(x, i), 'c' if freq else 'f')
    J = matrix(w.n, lambda i: SNum(b(core.int_t(i))), azim, two, sc)
    sol = stubs.lstsq(J, rhs)[0]
    E.prove('count', isinstance(out, w.rs.RFStream) and len(parts_of(out.traces)) == 5 * len(comps))
    if freq:
        need(len(inverse) == 5 * len(comps), 'inverse transforms')
    for j, t in enumerate(parts_of(out.traces)):
        if freq:
            E.prove('spectrum', veq(inverse[j][0].at(r), sol.at(j)))
            E.prove('fit', veq(t.data.at(r), core.SCplx.of(inverse[j][1].at(r)).re))
        else:
            E.prove('fit', veq(t.data.at(r), sol.at(j)))
            E.prove('spectrum', not inverse)
        E.prove('fit', veq(t.data.shape[0], w.npts))
        st = t.stats
        E.prove('label', AND(veq(st['term'], TERMS[j % 5]), veq(st['components'], comps), veq(st['channel'], str(j % 5)),
                             veq(st['location'], 'mod' if j < 5 else 'unmod'), veq(st['type'], 'harmonic')))
        E.prove('label', not any(k in st.ks for k in DROPPED))
        E.prove('onset', AND(*[veq(st[k], w.first.stats[k]) for k in ('onset', 'starttime', 'sampling_rate')]))
    E.prove('input', AND(len(parts_of(w.s.traces)) == 2, parts_of(w.s.traces)[0] is w.first, core.arr_eq(w.first.data, snap.frozen),
                         zb(snap.headers(w.first.stats)), w.first.log == []))


EVENTS = ['every event has one trace of each of the two components (event times are unique)']
OBL = ['count', 'fit', 'label', 'onset', 'input', 'spectrum']


@contract('rf.harmonics.harmonics', expect=OBL, cover=['R', 'Q', 'T', 'time', 'freq'], assumptions=LIB)
def one_component(E, load):
    """see decomposition"""
    decomposition(E, load, ('R', 'Q', 'T'))


@contract('rf.harmonics.harmonics', expect=OBL, cover=['RT', 'QT', 'time', 'freq'], assumptions=LIB + EVENTS)
def two_components(E, load):
    """see decomposition"""
    decomposition(E, load, ('RT', 'QT'))


@contract('rf.harmonics.harmonics', expect=['unknown', 'missing', 'method'], cover=['unknown', 'missing', 'method'], assumptions=LIB)
def rejected(E, load):
    """unknown components and methods and missing components are rejected"""
    mod = load('rf.harmonics')
    f = getattr(mod.harmonics, '__wrapped__', mod.harmonics)
    kind = E.choose(3)
    comps = ('R', 'Q', 'T', 'RT', 'QT')[E.choose(5)]
    E.range_reps = [E.int('sample', 0)]
    E.assume(E.range_reps[0].t < 1)
    if kind == 0:
        w = World(E, load)
        bad = ('TR', 'L', 'RQ', 'Z', 'RTQ')[E.choose(5)]
        try:
            f(w.s, components=bad)
            E.prove('unknown', False)
        except NotImplementedError:
            E.prove('unknown', True)
        E.cover('unknown')
    elif kind == 1:
        w = World(E, load)
        try:
            f(w.s, components=comps, method='frequency')
            E.prove('method', False)
        except NotImplementedError:
            E.prove('method', True)
        E.cover('method')
    else:
        gone = comps[E.choose(len(comps))]
        w = World(E, load, empty=gone)
        try:
            f(w.s, components=comps)
            E.prove('missing', False)
        except ValueError:
            E.prove('missing', True)
        E.cover('missing')
