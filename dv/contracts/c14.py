"""C14: rf.simple_model.SimpleModel.moveout and rf.rfstream.RFStream.moveout"""
import z3
from dv.contracts.lib import *

CONTRACTS, contract = registry()
AX = ['numpy.interp(x, xp, fp) is a function of x, xp, fp, left and right; for nondecreasing xp with xp[i] < xp[i+1] '
      'or i last it gives fp[i] at x = xp[i]; for nondecreasing xp and fp it is nondecreasing in x between xp[0] and '
      'xp[-1], and within fp[0]..fp[-1]',
      'moveout: stretch_delay_times enters by its contract (C16): two tables of equal length, here ordered with depth']


class Tables(object):
    """stretch_delay_times by its contract: per slowness, phase and reference two tables of the same length"""

    def __init__(self, E, model, sign):
        self.E, self.made, self.calls, self.sign = E, [], [], sign
        object.__setattr__(model, 'stretch_delay_times', self)

    def __call__(self, slowness, phase='Ps', ref=6.4):
        self.calls.append((slowness, phase, ref))
        E = self.E
        K = E.int('K', 2)
        t0, t1 = SArr.symbolic('t0', K), SArr.symbolic('t1', K)
        self.made.append((t0, t1, K))
        return t0, t1


def setup(E, load):
    mod, rs = load('rf.simple_model'), load('rf.rfstream')
    m = object.__new__(mod.SimpleModel)
    ph = SPhase('phase')
    made = []

    def make(base):
        t = trace(E, rs.RFTrace, base, npts=E.int(base + '.npts', 1), present=('onset', 'slowness'),
                  unknown=('type', 'phase'))
        made.append(t)
        return t
    tr = make('tr')
    g1, g2 = [Gap(b, lambda b=b: make(b)) for b in ('before', 'behind')]
    s = stream(rs.RFStream, [g1, tr, g2])
    return mod, rs, m, ph, made, tr, s


def outside(t):
    st = t.stats
    return OR(st['onset'] < st['starttime'], st['onset'] > st['endtime'])


def is_multiple(ph):
    return AND(NOT(ph.firstP), ph.length() > 3)


@contract('rf.simple_model.SimpleModel.moveout', expect=['error', 'tables', 'formula', 'untouched', 'length', 'frame',
                                                         'returned', 'mapped'],
          cover=['expand', 'compress', 'multiple', 'nothing'], assumptions=AX)
def moveout(E, load):
    """ValueError if and only if an onset is outside of its trace; else per trace, on the corrected side of the onset,
    the samples are those of the trace with its time axis stretched by the table of delays, on the other side and in
    length unchanged; a sample at the delay of a depth goes to the reference delay of this depth"""
    mod, rs, m, ph, made, tr, s = setup(E, load)
    T = Tables(E, m, None)
    ref = E.real('ref')
    old, snap = core.freeze(tr.data), Snap(tr)
    parts = list(s.traces.parts)
    try:
        r = m.moveout(s, phase=ph, ref=ref)
    except ValueError:
        E.prove('error', OR(*[outside(t) for t in made]))
        return
    E.prove('error', NOT(outside(tr)))
    E.prove('returned', r is s)
    E.prove('kept', len(s.traces.parts) == 3 and all(x is y for x, y in zip(parts, s.traces.parts)))
    E.prove('frame', snap.headers(tr.stats))
    E.prove('length', veq(tr.data.shape[0], old.shape[0]))
    own = [i for i, c in enumerate(T.calls) if holds(veq(c[0], tr.stats['slowness']))]
    need(len(own) == 1, 'stretch_delay_times is not called once for the trace')
    slow, phase, ref_ = T.calls[own[0]]
    E.prove('tables', AND(veq(phase.key, ph.key), veq(ref_, ref)))
    t0, t1, K = T.made[own[0]]
    st = tr.stats
    n, dt = st['npts'], st['delta']
    time = lambda k: (st['starttime'] - st['onset']) + lift(k) * dt
    i0 = core.sfloor((st['onset'] - st['starttime']) * st['sampling_rate'])
    a, b, d = E.int('a', 0), E.int('b', 0), E.int('d', 0)
    E.assume(z3.And(a.t < n.t, b.t < n.t, d.t < K.t))
    k = E.int('k', 0)
    E.assume(k.t < n.t)
    z = SNum(z3.RealVal(0))
    if is_multiple(ph):
        neg = lambda x: SArr(x.shape, lambda i: -x.at(i), 'f')
        E.prove('untouched', IMPLIES(k >= i0, veq(tr.data.at(k), old.at(k))))
        if i0 == 0:
            E.cover('nothing')
            return
        # reversed order: index i = 0.. is sample i0 - 1 - i
        stretched = SArr((i0,), lambda i: stubs.np_interp(-time(i0 - 1 - lift(i)), neg(t0), neg(t1), z, z), 'f')
        spec = stubs.np_interp(-time(k), stretched, SArr((i0,), lambda i: old.at(i0 - 1 - lift(i)), 'f'), z, z)
        E.prove('formula', IMPLIES(k < i0, veq(tr.data.at(k), spec)))
        E.cover('multiple')
        nodes(E, (neg(t0), neg(t1), K, z, z), (stretched, SArr((i0,), lambda i: old.at(i0 - 1 - lift(i)), 'f'), i0, z, z),
              lambda i: -time(i0 - 1 - lift(i)), d, i0 - 1 - a, i0 - 1 - b)
        E.prove('mapped', IMPLIES(AND(a < i0, b < i0, time(a) == t0.at(d), time(b) == t1.at(d)),
                                  veq(tr.data.at(b), old.at(a))))
        return
    shorter = t0.at(K - 1) > t1.at(K - 1)
    first = i0 + 1 if shorter else i0
    E.cover('compress' if E.entails(zb(shorter)) else 'expand')
    E.prove('untouched', IMPLIES(k < first, veq(tr.data.at(k), old.at(k))))
    if first == n:
        return
    L = n - first
    stretched = SArr((L,), lambda i: stubs.np_interp(time(first + lift(i)), t0, t1, z, None), 'f')
    rest = SArr((L,), lambda i: old.at(first + lift(i)), 'f')
    spec = stubs.np_interp(time(k), stretched, rest, None, z)
    E.prove('formula', IMPLIES(k >= first, veq(tr.data.at(k), spec)))
    nodes(E, (t0, t1, K, z, None), (stretched, rest, L, None, z), lambda i: time(first + lift(i)), d, a - first, b - first)
    E.prove('mapped', IMPLIES(AND(a >= first, b >= first, time(a) == t0.at(d), time(b) == t1.at(d)),
                              veq(tr.data.at(b), old.at(a))))


def nodes(E, table, samples, time, d, a, b):
    """the library axiom of interp at a node: depth d of the tables, sample a of the stretched axis (positions counted
    in increasing order).  Precondition of the property: around depth d the tables increase strictly, the first depth
    is not later than the first sample"""
    (x0, x1, K, l, r), (xs, ys, L, l2, r2) = table, samples
    E.assume(z3.Implies(d.t + 1 < K.t, z3.And((x0.at(d) < x0.at(d + 1)).t, (x1.at(d) < x1.at(d + 1)).t)))
    E.assume(veq(stubs.np_interp(x0.at(d), x0, x1, l, r), x1.at(d)).t)
    inside = AND(a >= 0, a < L)
    # sample a + 1 is stretched to a later time than sample a at depth d: interp increases strictly behind a node
    # behind which both tables increase, or a is the last sample
    E.assume(IMPLIES(inside, IMPLIES(time(a) == x0.at(d), veq(stubs.np_interp(xs.at(a), xs, ys, l2, r2), ys.at(a)))).t)


@contract('rf.rfstream.RFStream.moveout', expect=['called', 'phase', 'recorded', 'frame', 'samples', 'returned', 'model',
                                                  'ref'],
          cover=['end'], assumptions=['RFStream.moveout: SimpleModel.moveout enters by its contract, load_model returns '
                                      'a model for the name'])
def record(E, load):
    """the named model corrects the stream once, with the phase (Ps for P, Sp for S receiver functions by default) and
    reference slowness; every trace then records phase, its former slowness and the reference as slowness; nothing else
    changes"""
    rs = load('rf.rfstream')
    kw = dict(present=('onset', 'slowness'), unknown=('type', 'moveout', 'slowness_before_moveout'))
    tr = trace(E, rs.RFTrace, 'tr', **kw)
    s = stream(rs.RFStream, [traces(E, rs.RFTrace, 'g1', **kw), tr, traces(E, rs.RFTrace, 'g2', **kw)])
    parts = list(s.traces.parts)
    method = 'PS'[E.choose(2)]
    rs.RFStream.method = property(lambda self: method)
    models, calls = [], []

    class Model(object):
        def moveout(self, *a, **k):
            k = dict(zip(('stream', 'phase', 'ref'), a), **k)
            calls.append((k['stream'], k.get('phase', 'Ps'), k.get('ref', 6.4), tr.stats['slowness']))
            d = SArr.symbolic('corrected', tr.data.shape[0])
            object.__setattr__(tr, 'data', d)
            return k['stream']

    def load_model(fname='iasp91'):
        models.append(fname)
        return Model()
    rs.load_model = load_model
    a = {}
    if E.choose(2):
        a['phase'] = text(E, 'phase')
    if E.choose(2):
        a['ref'] = E.real('ref')
    if E.choose(2):
        a['model'] = text(E, 'model')
    old, snap = tr.stats['slowness'], Snap(tr)
    r = getattr(rs.RFStream.moveout, '__wrapped__', rs.RFStream.moveout)(s, **a)
    E.prove('returned', r is s and len(s.traces.parts) == 3 and all(x is y for x, y in zip(parts, s.traces.parts)))
    need(len(calls) == 1 and len(models) == 1, 'not one correction with one model')
    who, phase, ref, before = calls[0]
    want = a.get('phase', {'P': 'Ps', 'S': 'Sp'}[method])
    E.prove('called', AND(who is s, veq(before, old)))
    E.prove('phase', veq(phase, want))
    E.prove('ref', veq(ref, a.get('ref', 6.4)))
    E.prove('model', veq(models[0], a.get('model', 'iasp91')))
    E.prove('recorded', AND(veq(tr.stats['moveout'], want), veq(tr.stats['slowness_before_moveout'], old),
                            veq(tr.stats['slowness'], a.get('ref', 6.4))))
    E.prove('frame', snap.headers(tr.stats, ('moveout', 'slowness_before_moveout', 'slowness')))
    E.prove('samples', veq(tr.data.at(E.int('i', 0)), SNum(z3.Function('corrected', z3.IntSort(), z3.RealSort())(z3.Int('i')))))
    E.cover('end')
