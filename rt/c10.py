"""C10: deconvolution picks one source and the documented window, and keeps headers."""
import numpy as np
from rt.base import *


def window(method, win, onset, length):
    if win == 'P' and method in ('time', 'multitaper', 'func'):
        return (-10, 30, 5)
    if win == 'S' and method in ('time', 'multitaper', 'func'):
        return (-10, 30, 5)
    if method == 'iterative' and win in ('P', 'S'):
        return (-onset, length - onset, 0)
    if method == 'waterlevel' and win == 'P':
        return (-onset, length - onset, 5)
    if method == 'waterlevel' and win == 'S':
        return (-10, length - onset, 5)
    return win


def nearest(n, dt, onset):
    i = int(np.argmin(np.abs(np.arange(n) * dt - onset)))
    return i


def source(tr, win, onset):
    """independent reimplementation: cut with zero padding, then cosine taper at both ends"""
    s = tr.copy()
    s.trim(onset + win[0], onset + win[1], pad=True, fill_value=0.)
    s.taper(max_percentage=None, max_length=win[2])
    return s


def setup(rng, note, nmin=60, nmax=140):
    sr = pick(rng, [1., 2., 4., 5., 10.])
    n = int(rng.randint(nmin, nmax))
    dt = 1 / sr
    comps = pick(rng, ['LQT', 'ZRT', 'LQ', 'ZNE', 'L', 'QLT', 'TQL', 'EZN', 'QTL', 'LQTX', 'XLQT'])
    # onset on a sample, between two samples, near the ends (ties avoided)
    k = int(rng.randint(1, n - 1))
    off = pick(rng, [0, 0, 0.3, 0.7, 0.45, 0.55]) * dt
    onset = pick(rng, [k * dt + off, k * dt + off, k * dt + off, 0., (n - 1) * dt, (n - 1) * dt + 3.2 * dt, -2.3 * dt])
    traces = group(rng, comps, n=n, sr=sr, onset_at=onset)
    note.update(components=comps, sr=sr, npts=n, onset=onset)
    return traces, comps, sr, n, dt, onset


WIN = ['P', 'S', (-5, 10, 2), (-2, 7.5, 1), (-30, 200, 5), (0, 8, 0), (2, 10, 1), (-12, -2, 1)]


@case(60, 1200)
def func(rng, note):
    """custom function: what source, responses and shift it receives, and what is returned"""
    from rf import RFStream
    from rf.deconvolve import deconvolve
    traces, comps, sr, n, dt, onset = setup(rng, note)
    srcc = pick(rng, ['LZ', 'LZ', 'QR', comps[0], 'T'])
    rspc = pick(rng, [None, None, 'QT', 'Q', comps, 'LQT', 'RT', comps[-1]])
    win = pick(rng, WIN)
    note.update(source=srcc, response=rspc, winsrc=win)
    ns = sum(c in srcc for c in comps)
    rsp = [i for i, c in enumerate(comps) if rspc is None or c in rspc]
    s = RFStream(list(traces))
    rec = {}

    def fun(r, src, tshift=10, **kw):
        rec.update(rsp=r, src=src, tshift=tshift, kw=kw, ids=list(r), data=[t.data.copy() for t in r])
        for i, t in enumerate(r):
            t.data = t.data * 2 + i
        return r
    kw = dict(method='func', func=fun, source_components=srcc, response_components=rspc, winsrc=win, extra=7)
    if ns != 1 or not 0 < len(rsp) < 4:
        raises(ValueError, deconvolve, s, **kw)
        return
    isrc = [i for i, c in enumerate(comps) if c in srcc][0]
    before = [t.data.copy() for t in traces]
    orig = [t.copy() for t in traces]
    src_tr = traces[isrc].copy()
    with quiet():
        r = deconvolve(s, **kw)
    idx = nearest(n, dt, onset)
    on = src_tr.stats.starttime + idx * dt
    w = window('func', win, idx * dt, (n - 1) * dt)
    want = source(src_tr, w, on)
    need_close(rec['src'].data, want.data, 'source window', rtol=1e-9)
    need(abs(rec['src'].stats.starttime - want.stats.starttime) < 1e-6, 'start of the source window')
    need_close(rec['tshift'], -w[0], 'tshift')
    need([t.id for t in rec['rsp']] == [orig[i].id for i in rsp], 'responses %s', [t.id for t in rec['rsp']])
    for d, i in zip(rec['data'], rsp):
        need_close(d, before[i], 'response samples handed to the function')
    need(rec['kw'].pop('extra', None) == 7, 'further option not passed')
    if isrc in rsp:
        need(rec['kw'].pop('normalize', None) == rsp.index(isrc), 'default normalization')
    need(not rec['kw'], 'unexpected options %s', rec['kw'])
    need(len(r) == len(rsp), 'result has %d traces', len(r))
    for j, (t, i) in enumerate(zip(r, rsp)):
        need_close(t.data, before[i] * 2 + j, 'result %s' % t.id)
        need(t.id == orig[i].id and t.stats.starttime == orig[i].stats.starttime and
             t.stats.sampling_rate == sr and len(t) == n, 'headers of %s', t.id)
        need(abs(t.stats.onset - on) < 1e-6, 'onset %s instead of %s', t.stats.onset, on)
        same_snap((t.data, snap(orig[i], ('onset', 'processing'))[1]), snap(t, ('onset', 'processing')), 'headers', ('onset', 'processing', 'sac'))


@case(60, 900)
def methods(rng, note):
    """result of each method = the deconvolution function applied to the documented source and own samples"""
    from rf import RFStream
    from rf.deconvolve import (deconvolve, deconv_time, deconv_waterlevel, deconv_iterative)
    traces, comps, sr, n, dt, onset = setup(rng, note)
    method = pick(rng, ['time', 'time', 'waterlevel', 'freq', 'iterative'])
    win = pick(rng, WIN[:7] if method == 'time' else WIN[:4])
    srcc = pick(rng, ['LZ', 'LZ', comps[0]])
    rspc = pick(rng, [None, None, 'QT', comps])
    if sum(c in srcc for c in comps) != 1 or not 0 < sum(rspc is None or c in rspc for c in comps) < 4:
        raise Skip()
    kw = {}
    if rng.rand() < 0.3:
        kw['normalize'] = pick(rng, [None, 0])
    if method == 'time' and rng.rand() < 0.5:
        kw['spiking'] = pick(rng, [0.5, 10])
    if method in ('waterlevel', 'freq') and rng.rand() < 0.5:
        kw['waterlevel'] = 0.2
    if method == 'iterative':
        kw['itmax'] = 4
    isrc = [i for i, c in enumerate(comps) if c in srcc][0]
    rsp = [i for i, c in enumerate(comps) if rspc is None or c in rspc]
    note.update(method=method, winsrc=win, source=srcc, response=rspc, **kw)
    orig = [t.copy() for t in traces]
    s = RFStream(list(traces))
    idx = nearest(n, dt, onset)
    on = orig[isrc].stats.starttime + idx * dt
    w = window('waterlevel' if method == 'freq' else method, win, idx * dt, (n - 1) * dt)
    src = source(orig[isrc], w, on)
    k2 = dict(kw)
    if 'normalize' not in k2 and isrc in rsp:
        k2['normalize'] = rsp.index(isrc)
    data = [orig[i].data.copy() for i in rsp]
    try:
        with quiet():
            if method == 'time':
                want = deconv_time(data, src.data, int(round(-w[0] * sr - len(src) // 2)), **k2)
            elif method == 'iterative':
                want, nit, _ = deconv_iterative(data, src.data, sr, tshift=-w[0], **k2)
            else:
                want = deconv_waterlevel(data, src.data, sr, tshift=-w[0], **k2)
    except Exception:
        raise Skip()
    if not all(np.all(np.isfinite(x)) for x in want):
        raise Skip()
    with quiet():
        r = deconvolve(s, method=method, source_components=srcc, response_components=rspc, winsrc=win, **kw)
    need(len(r) == len(rsp), 'result has %d traces', len(r))
    for j, (t, i) in enumerate(zip(r, rsp)):
        x = np.real(want[j])
        need_close(t.data, x, '%s of %s' % (method, t.id), rtol=1e-6, atol=1e-8 * (np.max(np.abs(x)) + 1e-300))
        need(np.isrealobj(t.data), 'complex samples')
        need(t.id == orig[i].id and t.stats.starttime == orig[i].stats.starttime and len(t) == n, 'headers of %s', t.id)
        need(abs(t.stats.onset - on) < 1e-6, 'onset %s instead of %s', t.stats.onset, on)
        if method == 'iterative':
            need(t.stats.iterations == nit[j], 'iterations %s', t.stats.get('iterations'))
        # default normalization: maximum of the source deconvolved from itself is 1
    if 'normalize' not in kw and isrc in rsp and np.max(np.abs(want[rsp.index(isrc)])) > 1e-9:
        x = r[rsp.index(isrc)].data
        need_close(np.max(np.abs(x) if method != 'waterlevel' and method != 'freq' else x), 1, 'maximum of the source component')
    for i, (t, o) in enumerate(zip(traces, orig)):
        if i not in rsp and i != isrc:
            need(np.array_equal(t.data, o.data), 'trace %s outside of the responses modified', t.id)


@case(10, 60)
def rejected(rng, note):
    """unknown method, no or several sources, no or more than three responses"""
    from rf.deconvolve import deconvolve
    from rf import RFStream
    k = rng.randint(5)
    traces = group(rng, 'LQT' if k else 'LQTZ', n=60, sr=2.)
    kw = [dict(), dict(method='foo'), dict(source_components='LQ'), dict(source_components='X'),
          dict(response_components='X')][k]
    exc = NotImplementedError if k == 1 else ValueError
    if k == 0 and rng.rand() < 0.5:
        traces = group(rng, 'LQTR', n=60, sr=2.)
    note.update(kw=kw, n=len(traces))
    with quiet():
        raises(exc, deconvolve, RFStream(traces), **kw)


@case(12, 100)
def method_wrapper(rng, note):
    """RFStream.deconvolve works in place and gives the same as the function"""
    from rf import RFStream
    from rf.deconvolve import deconvolve
    traces = group(rng, pick(rng, ['LQT', 'TQL']), n=80, sr=2.)
    a, b = RFStream([t.copy() for t in traces]), RFStream(traces)
    kw = dict(method=pick(rng, ['time', 'waterlevel']), winsrc=pick(rng, ['P', (-5, 10, 2)]),
              response_components=pick(rng, [None, 'QL', 'Q']))
    note.update(**{k: str(v) for k, v in kw.items()})
    with quiet():
        ra = deconvolve(a, **kw)
        rb = b.deconvolve(**kw)
    need(rb is b, 'not in place')
    need(len(ra) == len(b), 'traces')
    for x, y in zip(ra, b):
        need_close(y.data, x.data, 'samples')
        need(x.id == y.id, 'order')
