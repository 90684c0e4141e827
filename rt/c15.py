"""C15: model results depend only on their arguments, not on earlier calls."""
import os
import numpy as np
from rt.base import *
from rt.c14 import model_file, PHASES


def fresh():
    """an independent model instance with empty caches"""
    import rf.simple_model as sm
    from rt.c14 import iasp
    import os
    import rf
    fn = os.path.join(os.path.dirname(rf.__file__), 'data', 'iasp91.dat')
    z, vp, vs, n = np.loadtxt(fn, unpack=True)
    return sm.SimpleModel(z, vp, vs, n.astype(int))


def query(rng, phases=PHASES):
    kind = pick(rng, ['delay', 'stretch', 'stretch', 'stretch', 'slow', 'pp', 'moveout', 'moveout'])
    p, ref = pick(rng, [6.4, 5.5, rng.uniform(4.5, 8)]), pick(rng, [6.4, 5.5, 7.])
    if kind == 'pp':
        return kind, (rng.uniform(1, 400), p, pick(rng, 'PSps')), {}
    if kind == 'slow':
        return kind, (p,), pick(rng, [{}, {'phase': 'P'}, {'phase': 'S'}, {'phase': 'ps'}])
    if kind == 'delay':
        return kind, (p,), pick(rng, [{}, {'phase': pick(rng, phases)}])
    return kind, (p,), {'phase': pick(rng, phases), 'ref': ref}


def ask(m, q, tr=None):
    kind, args, kw = q
    if kind == 'pp':
        return [m.ppoint_distance(*args, **kw)]
    if kind == 'slow':
        return list(m.calculate_vertical_slowness(*args, **kw))
    if kind == 'delay':
        return [m.calculate_delay_times(*args, **kw)]
    if kind == 'stretch':
        return list(m.stretch_delay_times(*args, **kw))
    t = tr.copy()
    t.stats.slowness = args[0]
    m.moveout([t], **kw)
    return [t.data]


def same(a, b, what):
    need(len(a) == len(b), '%s: %d results instead of %d', what, len(a), len(b))
    for x, y in zip(a, b):
        need(np.shape(x) == np.shape(y) and np.array_equal(np.asarray(x, float), np.asarray(y, float), equal_nan=True),
             '%s depends on earlier calls', what)


@case(12, 150)
def history(rng, note):
    """a sequence of queries to one model gives the results of a new model for each query"""
    tr = group(rng, 'Q', n=int(rng.randint(40, 120)), sr=4., onset_at=5.)[0]
    m = fresh()
    qs = [query(rng) for _ in range(rng.randint(3, 9))]
    if rng.rand() < 0.7:        # same reference slowness or phase again
        k, a, kw = qs[0]
        for kw2 in ({'phase': 'Ps', 'ref': 6.4}, {'phase': 'Ps', 'ref': 5.5}, {'phase': 'Ppps', 'ref': 6.4},
                    {'phase': 'ps', 'ref': 7.}, {'phase': 'Sp', 'ref': 6.4}):
            qs.insert(rng.randint(len(qs) + 1), (pick(rng, ['stretch', 'moveout']), (6.,), kw2))
    note['queries'] = repr(qs)
    z, dz, vp, vs = m.z.copy(), m.dz.copy(), m.vp.copy(), m.vs.copy()
    for i, q in enumerate(qs):
        got = ask(m, q, tr)
        got = [np.array(g, copy=True) for g in got]
        want = ask(fresh(), q, tr)
        same(got, want, 'query %d %r' % (i, q))
    need(all(np.array_equal(a, b) for a, b in zip((z, dz, vp, vs), (m.z, m.dz, m.vp, m.vs))), 'model changed')


@case(6, 60)
def results_are_copies(rng, note):
    """changing a returned array does not change later results"""
    m = fresh()
    q = query(rng)
    while q[0] == 'moveout':
        q = query(rng)
    note['query'] = repr(q)
    r = ask(m, q)
    keep = [np.array(x, copy=True) for x in r]
    for x in r:
        if isinstance(x, np.ndarray) and x.flags.writeable and x.ndim:
            x *= 3.
            x += 1.
    same(ask(m, q), keep, 'repeated query %r' % (q,))


@case(5, 40)
def streams(rng, note):
    """moveout and ppoints of streams give the same results whatever was calculated before"""
    from rf import RFStream
    traces = group(rng, 'LQT', n=60, sr=4., onset_at=5.)
    def calc(kind, kw):
        s = RFStream([t.copy() for t in traces])
        if kind == 'pp':
            return [np.asarray(s.ppoints(**kw))]
        s.moveout(**kw)
        return [t.data for t in s]
    qs = []
    for _ in range(6):
        if rng.rand() < .4:
            qs.append(('pp', {'pp_depth': rng.uniform(5, 300), 'pp_phase': pick(rng, 'PS')}))
        else:
            qs.append(('mo', {'phase': pick(rng, ['Ps', 'Ppps', 'Ps']), 'ref': pick(rng, [6.4, 5., 7.])}))
    qs = qs + qs[::-1]
    note['queries'] = repr(qs)
    first = {}
    for q in qs:
        r = calc(*q)
        k = repr(q)
        if k in first:
            same(r, first[k], '%r' % (q,))
        first[k] = r
    # and the values are those of a new model
    for kind, kw in qs[:6]:
        m = fresh()
        if kind == 'mo':
            tt = [t.copy() for t in traces]
            m.moveout(tt, **kw)
            same([t.data for t in tt], first[repr((kind, kw))], '%r against a new model' % (kw,))


@case(4, 30)
def load_twice(rng, note):
    """loading a model twice gives the same velocities; different files do not share"""
    import rf.simple_model as sm
    with scratch() as d:
        f1, l1 = model_file(rng, d)
        f2, l2 = model_file(rng, d)
        same_name = rng.rand() < .5
        if same_name:
            for k, f in (('a', f1), ('b', f2)):
                os.mkdir(os.path.join(d, k))
                os.rename(f, os.path.join(d, k, 'model.dat'))
            f1, f2 = [os.path.join(d, k, 'model.dat') for k in 'ab']
        order = [pick(rng, [f1, f2, 'iasp91']) for _ in range(6)] + [f1, f2, f1, 'iasp91']
        ref = fresh()
        want = {f1: l1, f2: l2, 'iasp91': (ref.z, ref.dz, ref.vp, ref.vs)}
        for f in order:
            m = sm.load_model(f) if f != 'iasp91' or rng.rand() < .5 else sm.load_model()
            for a, b, w in zip((m.z, m.dz, m.vp, m.vs), want[f], ('z', 'dz', 'vp', 'vs')):
                need_close(a, b, '%s of model' % w, rtol=1e-9, atol=1e-9)
            m.stretch_delay_times(6., phase='Ps', ref=6.4)
            if rng.rand() < .5:
                try:
                    m.moveout(group(rng, 'Q', n=40, sr=2., onset_at=4.), phase=pick(rng, ['Ps', 'Sp']), ref=6.4)
                except ValueError:
                    pass
    note['order'] = repr([o.split('/')[-1] for o in order])


@case(1, 2)
def examples(rng, note):
    """example streams modified by the caller do not affect later ones"""
    from rf.util import minimal_example_rf, minimal_example_Srf
    import rf
    for f in (minimal_example_rf, minimal_example_Srf):
        a = f()
        keep = [snap(t) for t in a]
        for rep in range(2):
            b = f()
            need(len(b) == len(keep), 'number of traces')
            for t, k in zip(b, keep):
                same_snap(k, snap(t), '%s example' % f.__name__)
            for t in b:     # modifications in place, deep
                t.data[:] = 7.
                t.stats.onset += 5
                t.stats.station = 'XX'
                for key in list(t.stats):
                    if isinstance(t.stats[key], list):
                        t.stats[key].append('changed')
                    elif hasattr(t.stats[key], 'keys') and key not in ('sac', '_format'):
                        pass
                    if key == 'sac':
                        t.stats.sac['stla'] = 99.
            b.traces.pop()
        a[0].data[:] = 3.
        for t in a:
            t.stats.processing.append('x')
        c = f()
        for t, k in zip(c, keep):
            same_snap(k, snap(t), '%s example' % f.__name__)
    a = rf.read_rf()
    k = [snap(t) for t in a]
    a[0].data[:] = 0
    for t, q in zip(rf.read_rf(), k):
        same_snap(q, snap(t), 'read_rf example')
