"""C21: harmonic decomposition is the least-squares fit of the documented terms."""
import numpy as np
from rt.base import *

TERMS = ['constant', 'cos', 'sin', 'cos2', 'sin2']


def rows(baz, azim, comps, scalars):
    b = np.radians(np.asarray(baz, float) - azim)
    one, zero = np.ones(len(b)), np.zeros(len(b))
    c, s, c2, s2 = np.cos(b), np.sin(b), np.cos(2 * b), np.sin(2 * b)
    if len(comps) == 1:
        return np.array([one, c, s, c2, s2]).T
    # transverse component: quarter period shift (theta -> theta + 90 deg / 2nd order 45 deg)
    cq, sq = np.cos(b + np.pi / 2), np.sin(b + np.pi / 2)
    c2q, s2q = np.cos(2 * b + np.pi / 2), np.sin(2 * b + np.pi / 2)
    r = np.array([scalars[0] * one, c, s, c2, s2, zero, c, s, c2, s2]).T
    t = np.array([zero, cq, sq, c2q, s2q, scalars[1] * one, -cq, -sq, -c2q, -s2q]).T
    return np.vstack([r, t])


def events(rng, comps, nev, n, sr=4., extra=''):
    traces = []
    base = rand_time(rng)
    for e in range(nev):
        g = group(rng, comps + extra, n=n, sr=sr, onset_at=2., type='rf', start=base + 3600 * e * pick(rng, [1, 1, 24]) + e)
        baz = rng.uniform(0, 360)
        et = g[0].stats.event_time
        for t in g:
            t.stats.back_azimuth = baz
            t.stats.event_time = et
            t.stats.processing = ['p']
            t.stats.event_id = 'e%d' % e
        traces += g
    return traces


def check_labels(r, comps, n):
    k = 5 * len(comps)
    need(len(r) == k, '%d traces instead of %d', len(r), k)
    for i, t in enumerate(r):
        need(t.stats.channel == str(i % 5), 'channel %r of trace %d', t.stats.channel, i)
        need(t.stats.term == TERMS[i % 5], 'term %r of trace %d', t.stats.term, i)
        need(t.stats.location == ('mod' if i < 5 else 'unmod'), 'location %r of trace %d', t.stats.location, i)
        need(t.stats.get('components') == comps, 'components %r of trace %d', t.stats.get('components'), i)
        need(t.stats.type == 'harmonic', 'type')
        need(len(t) == n, 'length')


@case(60, 1200)
def fit(rng, note):
    """coefficients against an independent least-squares solution; both methods, any input order, additional components"""
    from rf import RFStream
    comps = pick(rng, ['R', 'RT', 'Q', 'QT', 'T'])
    nev = int(rng.randint(5, 14)) if rng.rand() < .8 else int(rng.randint(1, 5))
    n = int(rng.randint(4, 30))
    extra = pick(rng, ['', '', 'L', 'Z'])
    traces = events(rng, comps, nev, n, extra=extra)
    order = list(rng.permutation(len(traces)))
    traces = [traces[i] for i in order]
    kw = {}
    azim = 0
    if rng.rand() < .5:
        azim = kw['azim'] = pick(rng, [rng.uniform(0, 360), 30, -45])
    if rng.rand() < .4:
        kw['method'] = pick(rng, ['time', 'freq'])
    if comps != 'R' or rng.rand() < .5:
        kw['components'] = comps
    scalars = (3, 0.3)
    if len(comps) == 2 and rng.rand() < .5:
        scalars = kw['scalars'] = (rng.uniform(.5, 4), rng.uniform(.2, 2))
    note.update(components=comps, events=nev, n=n, kw=repr(kw), order=repr([t.id[-1] for t in traces]))
    keep = [snap(t) for t in traces]
    s = RFStream(list(traces))
    with quiet():
        r = s.harmonics(**kw)
    for t, k in zip(traces, keep):
        same_snap(k, snap(t), 'input trace')
    check_labels(r, comps, n)
    need(r[0].stats.delta == traces[0].stats.delta, 'sampling')
    # independent fit
    byc = {c: sorted([t for t in traces if t.stats.channel[-1] == c], key=lambda t: t.stats.event_time) for c in comps}
    baz = [t.stats.back_azimuth for t in byc[comps[0]]]
    A = rows(baz, azim, comps, scalars)
    B = np.vstack([np.array([t.data for t in byc[c]]) for c in comps])
    got = np.array([t.data for t in r])
    want = np.linalg.pinv(A, rcond=1e-12) @ B
    sv = np.linalg.svd(A, compute_uv=False)
    sv = sv[sv > 1e-12 * sv[0]]
    if sv[-1] < 1e-4 * sv[0]:
        raise Skip()
    need_close(got, want, 'coefficients', rtol=1e-6, atol=1e-6 * np.max(np.abs(want)))
    need_close(A.T @ (A @ got - B), 0 * got, 'normal equations', rtol=1e-6, atol=1e-6 * np.max(np.abs(A.T @ B)) + 1e-9)


@case(20, 300)
def exact(rng, note):
    """data synthesized from known coefficients are recovered, both components"""
    from rf import RFStream
    comps = pick(rng, ['R', 'RT', 'QT', 'Q'])
    n, nev = int(rng.randint(4, 20)), int(rng.randint(8, 20))
    azim = pick(rng, [0, rng.uniform(0, 360)])
    traces = events(rng, comps, nev, n)
    h = rng.randn(5 * len(comps), n)
    for t in traces:
        A = rows([t.stats.back_azimuth], azim, comps, (3, .3))
        t.data = A[comps.index(t.stats.channel[-1])] @ h
    note.update(components=comps, azim=azim, events=nev)
    with quiet():
        r = RFStream([traces[i] for i in rng.permutation(len(traces))]).harmonics(components=comps, azim=azim, method=pick(rng, ['time', 'freq']))
    check_labels(r, comps, n)
    A = np.vstack([rows([t.stats.back_azimuth], azim, comps, (3, .3))[comps.index(t.stats.channel[-1])] for t in traces])
    sv = np.linalg.svd(A, compute_uv=False)
    if sv[-1] < 1e-2 * sv[0]:
        raise Skip()
    need_close(np.array([t.data for t in r]), h, 'recovered coefficients', rtol=1e-5, atol=1e-5)


@case(20, 200)
def rejected(rng, note):
    """unknown or missing components and methods"""
    from rf import RFStream
    comps = pick(rng, ['R', 'RT', 'Q', 'QT'])
    traces = events(rng, comps, 5, 6)
    s = RFStream(traces)
    kind = pick(rng, ['unknown', 'missing', 'method'])
    note.update(kind=kind, comps=comps)
    with quiet():
        if kind == 'unknown':
            c = pick(rng, ['Z', 'L', 'TR', 'TQ', 'RQ', 'ZRT', '', 'r'])
            raises(NotImplementedError, s.harmonics, components=c)
        elif kind == 'missing':
            miss = {'R': ['Q', 'T', 'RT', 'QT'], 'RT': ['Q', 'QT'], 'Q': ['R', 'T', 'QT', 'RT'], 'QT': ['R', 'RT']}[comps]
            raises(ValueError, s.harmonics, components=pick(rng, miss))
        else:
            raises(NotImplementedError, s.harmonics, components=comps, method=pick(rng, ['xxx', 'frequency', 'TIME', 'multitaper']))
