"""C14: moveout correction moves each delay to its reference-slowness delay."""
import os
import numpy as np
from rt.base import *

DEG = 111.2


def model_file(rng, d, note=None, n_col=None, deep=True, vmax=None):
    """Random layered model written to a file; returns name and the layer tables (top, thickness, vp, vs)."""
    nl = int(rng.randint(4, 30))
    z = np.hstack([[0., 0.], np.cumsum(rng.uniform(3, 40, nl))])
    vp = np.hstack([[5.], np.sort(rng.uniform(5., vmax or 8.8, nl + 1))])
    vs = vp / rng.uniform(1.65, 1.85)
    n = np.hstack([[0, 0], rng.randint(0, 5, nl)])
    fn = os.path.join(d, 'model_%d.dat' % rng.randint(10 ** 9))
    np.savetxt(fn, np.array([z, vp, vs, n]).T, fmt=['%.4f', '%.6f', '%.6f', '%d'])
    z, vp, vs, n = np.loadtxt(fn, unpack=True)
    return fn, refine(z, vp, vs, n.astype(int))


def refine(z, vp, vs, n):
    """independent refinement: n[i+1] points inside of interval i"""
    def ref(v):
        out = []
        for i in range(len(v) - 1):
            k = int(n[i + 1]) + 1
            for j in range(k):
                out.append(v[i] + (v[i + 1] - v[i]) * j / k)
        out.append(v[-1])
        return np.array(out)
    z, vp, vs = ref(z), ref(vp), ref(vs)
    return z[:-1], np.diff(z), vp[:-1], vs[:-1]


def iasp():
    import rf
    fn = os.path.join(os.path.dirname(rf.__file__), 'data', 'iasp91.dat')
    z, vp, vs, n = np.loadtxt(fn, unpack=True)
    return refine(z, vp, vs, n.astype(int))


def delays(layers, p, phase):
    """delay of the converted phase after the direct wave at the bottom of each layer"""
    z, dz, vp, vs = layers
    ph = phase.upper()
    with np.errstate(invalid='ignore'):
        qp = np.sqrt(1 / vp ** 2 - (p / DEG) ** 2) if 'P' in ph else 0 * vp
        qs = np.sqrt(1 / vs ** 2 - (p / DEG) ** 2) if 'S' in ph else 0 * vs
    q = {'P': qp, 'S': qs}
    x = sum(q[c] for c in ph) - 2 * q[ph[0]]
    return np.cumsum(x * dz)


def covered(layers, p, ref, phase):
    """the delays are ordered by depth for both slownesses (otherwise the mapping is not a function)"""
    t0, t1 = table(layers, p, ref, phase)
    s = -1 if phase[0].upper() == 'S' and len(phase) > 3 else 1
    return len(t0) > 1 and (s * np.diff(t0) >= 0).all() and (s * np.diff(t1) >= 0).all()


def table(layers, p, ref, phase):
    t, r = delays(layers, p, phase), delays(layers, ref, phase)
    if phase[0].upper() == 'S':
        t, r = -t, -r
    bad = np.nonzero(np.isnan(t) | np.isnan(r))[0]
    k = bad[0] - 1 if len(bad) else len(t)
    t, r = t[:k], r[:k]
    return np.hstack([-t[1:10][::-1], t]), np.hstack([-r[1:10][::-1], r])


def spec(data, onset, dt, layers, p, ref, phase):
    """onset: seconds after the first sample"""
    n = len(data)
    i0 = int(np.floor(onset / dt + 1e-9))
    t0, t1 = table(layers, p, ref, phase)
    out = data.copy()
    times = np.arange(n) * dt - onset
    if phase[0].upper() == 'S' and len(phase) > 3:
        old = data[:i0][::-1]
        time0 = i0 * dt - onset
        t = time0 - np.arange(1, i0 + 1) * dt
        nt = -np.interp(-t, -t0, -t1, left=0, right=0)
        out[:i0] = np.interp(-t, -nt, old, left=0, right=0)[::-1] if i0 else old
    else:
        if t0[-1] > t1[-1]:
            i0 += 1
        t = times[i0:]
        if len(t):
            nt = np.interp(t, t0, t1, left=0)
            out[i0:] = np.interp(t, nt, data[i0:], right=0.)
    return out, i0


PHASES = ['Ps', 'Ps', 'Ps', 'Ppps', 'Ppss', 'Psss', 'Pppp', 'Sp', 'Sp', 'Sssp', 'Sspp', 'Sppp', 'ps', 'PS', 'sp', 'pPpS', 'sppp', 'sSsp', 'pPss']


@case(40, 900)
def reference(rng, note):
    """compared with an independent implementation; random slownesses, phases, onset positions, models"""
    from rf import RFStream
    phase = pick(rng, PHASES)
    method = phase[0].upper()
    with scratch() as d:
        if rng.rand() < 0.4:
            mname, layers = model_file(rng, d)
        else:
            mname, layers = 'iasp91', iasp()
        traces = []
        for i in range(1 + rng.randint(3)):
            n = int(rng.randint(60, 300))
            sr = pick(rng, [1., 2., 4., 5., 8., 10.])
            k = pick(rng, [0, n - 1, int(rng.randint(0, n)), int(rng.randint(0, n // 2))])
            off = 0 if k == n - 1 else pick(rng, [0, 0, 0.25, 0.5]) / sr
            tr = group(rng, pick(rng, 'QL'), n=n, sr=sr, onset_at=k / sr + off, sta='S%d' % i)[0]
            tr.stats.slowness = pick(rng, [6.4, rng.uniform(4.5, 8.5), rng.uniform(8, 12), rng.uniform(0.5, 4), 6.4001])
            tr.stats.phase = method
            traces.append(tr)
        ref = pick(rng, [6.4, 6.4, 5., 8., 10., 7])
        kw = dict(phase=phase, ref=ref, model=mname)
        if ref == 6.4 and rng.rand() < .5:
            del kw['ref']
        if mname == 'iasp91' and rng.rand() < .5:
            del kw['model']
        if phase == {'P': 'Ps', 'S': 'Sp'}[method] and rng.rand() < .5:
            del kw['phase']
        note.update(traces=[(len(t), t.stats.sampling_rate, t.stats.onset - t.stats.starttime, t.stats.slowness) for t in traces],
                    ref=ref, phase=phase, model=mname, layers=len(layers[0]))
        want = []
        for t in traces:
            w, i0 = spec(t.data, t.stats.onset - t.stats.starttime, t.stats.delta, layers, t.stats.slowness, ref, phase)
            want.append((w, t.data.copy(), t.stats.onset, t.stats.starttime, t.stats.slowness))
        if not all(covered(layers, t.stats.slowness, ref, phase) for t in traces):
            raise Skip()
        s = RFStream(list(traces))
        with quiet():
            r = s.moveout(**kw)
    need(r is s, 'not in place')
    for t, (w, old, on, st, p) in zip(traces, want):
        need(len(t) == len(old), 'length changed')
        need_close(t.data, w, 'moveout %s slowness %s ref %s' % (phase, p, ref), rtol=1e-6, atol=1e-6 * np.max(np.abs(old)))
        need(t.stats.onset == on and t.stats.starttime == st, 'times changed')
        need(t.stats.moveout == phase, 'moveout header %r', t.stats.moveout)
        need(t.stats.slowness_before_moveout == p, 'slowness_before_moveout %r instead of %r',
             t.stats.slowness_before_moveout, p)
        need(t.stats.slowness == ref, 'slowness header %r', t.stats.slowness)
        i0 = int(np.floor((on - st) * t.stats.sampling_rate + 1e-9))
        if phase[0].upper() == 'S' and len(phase) > 3:
            need(np.array_equal(t.data[i0:], old[i0:]), 'uncorrected side changed')
        else:
            need(np.array_equal(t.data[:i0], old[:i0]), 'uncorrected side changed')


@case(16, 300)
def conversion(rng, note):
    """a smooth pulse at the delay of a depth is moved to the reference delay of this depth"""
    from rf import RFStream
    phase = pick(rng, ['Ps', 'Ps', 'Ppps', 'Ppss', 'Sp'])
    layers = iasp()
    p, ref = rng.uniform(4.5, 8.5), pick(rng, [6.4, 5., 8.])
    if phase == 'Sp':
        p, ref = rng.uniform(8.5, 12), pick(rng, [10., 11.])
    j = int(rng.randint(20, min(140, len(layers[0]))))
    t0, t1 = delays(layers, p, phase), delays(layers, ref, phase)
    if not (np.isfinite(t0[:j + 5]).all() and np.isfinite(t1[:j + 5]).all()):
        raise Skip()
    a, b = abs(t0[j]), abs(t1[j])
    sr, n = 10., 1200
    onset = 20.
    t = np.arange(n) / sr - onset
    if max(a, b) > t[-1] - 10:
        raise Skip()
    tr = group(rng, 'Q', n=n, sr=sr, onset_at=onset, data=[np.exp(-((t - a) / 1.5) ** 2)])[0]
    tr.stats.slowness = p
    note.update(phase=phase, slowness=p, ref=ref, delay=a, ref_delay=b)
    RFStream([tr]).moveout(phase=phase, ref=ref)
    need(abs(t[int(np.argmax(tr.data))] - b) < 0.25, 'pulse at %s s instead of %s s', t[int(np.argmax(tr.data))], b)
    need(abs(np.max(tr.data) - 1) < 0.02, 'amplitude %s', np.max(tr.data))


@case(14, 200)
def identity(rng, note):
    """at reference slowness nothing moves within the delays covered by the model"""
    from rf import RFStream
    phase = pick(rng, PHASES)
    ref = pick(rng, [6.4, 5., 8.])
    layers = iasp()
    n, sr = int(rng.randint(100, 600)), pick(rng, [1., 2., 5.])
    onset = int(rng.randint(0, n)) / sr
    tr = group(rng, 'Q', n=n, sr=sr, onset_at=onset)[0]
    tr.stats.slowness = ref
    old = tr.data.copy()
    if not covered(layers, ref, ref, phase):
        raise Skip()
    t0, _ = table(layers, ref, ref, phase)
    note.update(phase=phase, ref=ref, n=n, onset=onset)
    RFStream([tr]).moveout(phase=phase, ref=ref)
    t = np.arange(n) / sr - onset
    ok = (t > np.min(t0) + 1 / sr) & (t < np.max(t0) - 1 / sr)
    need_close(tr.data[ok], old[ok], 'samples at reference slowness', rtol=1e-6, atol=1e-6 * np.max(np.abs(old)))


@case(10, 80)
def outside(rng, note):
    """an onset outside of the trace raises ValueError"""
    from rf import RFStream
    n, sr = 80, 4.
    on = pick(rng, [-0.25, -5., n / sr, (n - 1) / sr + 0.01, 100.])
    g = group(rng, 'LQ', n=n, sr=sr, onset_at=5.)
    bad = pick(rng, [0, 1])
    g[bad].stats.onset = g[bad].stats.starttime + on
    note.update(onset=on, trace=bad)
    raises(ValueError, RFStream(g).moveout, phase=pick(rng, ['Ps', 'Ppps']))
