"""C27: multitaper deconvolution keeps shape, scale and time origin."""
import numpy as np
from rt.base import *


def wavelet(rng, n):
    d = rng.randn(n) * np.hanning(n)
    return d


def setup(rng):
    sr = pick(rng, [2., 4., 5.])
    T = pick(rng, [10, 5, 8])
    olap = pick(rng, [.75, .5, .75])
    ntap = int(round(T * sr))
    nft = int(rng.randint(4 * ntap, 8 * ntap))
    nwav = int(rng.randint(ntap, nft - 1)) if rng.rand() < .5 else int(rng.randint(ntap, 3 * ntap))
    nn = int(rng.randint(ntap, nft)) if rng.rand() < .8 else nft
    nc = int(rng.randint(1, 4))
    src = wavelet(rng, nwav)
    on = int(rng.randint(0, nft - nwav + 1))
    rsp = []
    for c in range(nc):
        r = rng.randn(nft) * .05
        r[on:on + nwav] += src * pick(rng, [1, -.5, .3])
        rsp.append(r)
    nse = [rng.randn(nn) * .05 for c in range(nc)]
    kw = {}
    if T != 10:
        kw['T'] = T
    if olap != .75:
        kw['olap'] = olap
    if rng.rand() < .3:
        kw['K'] = pick(rng, [2, 3])
    if rng.rand() < .3:
        kw['tband'] = pick(rng, [3, 4, 2.5])
    if rng.rand() < .3:
        kw['gauss'] = pick(rng, [.5, 1., None])
    tshift = -pick(rng, [0, 5, 10, 2.5])
    return rsp, src, nse, sr, tshift, kw


def same_inputs(a, b):
    need(all(np.array_equal(x, y) for x, y in zip(a, b)), 'inputs modified')


@case(30, 600)
def shape(rng, note):
    """length, finiteness, common normalization factor, inputs untouched, proportional scaling"""
    from rf.deconvolve import deconv_multitaper
    rsp, src, nse, sr, tshift, kw = setup(rng)
    note.update(responses=len(rsp), nft=len(rsp[0]), nwav=len(src), noise=len(nse[0]), sr=sr, tshift=tshift, kw=repr(kw))
    keep = [x.copy() for x in rsp + nse + [src]]
    raw = deconv_multitaper(list(rsp), src, list(nse), sr, tshift, normalize=None, **kw)
    same_inputs(keep, rsp + nse + [src])
    need(len(raw) == len(rsp), '%d results', len(raw))
    for r in raw:
        need(np.shape(r) == (len(rsp[0]),) and np.isfinite(r).all() and not np.iscomplexobj(r), 'result %s', np.shape(r))
    raw = np.array(raw)
    i = int(rng.randint(len(rsp)))
    k2 = dict(kw)
    if i or rng.rand() < .5:
        k2['normalize'] = i
    nor = np.array(deconv_multitaper(list(rsp), src, list(nse), sr, tshift, **k2))
    need_close(nor, raw / np.max(np.abs(raw[i])), 'normalized results', rtol=1e-7, atol=1e-9)
    need(abs(np.max(np.abs(nor[i])) - 1) < 1e-9, 'largest absolute value of the reference %s', np.max(np.abs(nor[i])))
    same_inputs(keep, rsp + nse + [src])
    a = pick(rng, [2., 1e3, 1e-3, -1., 7.3])
    sc = np.array(deconv_multitaper([a * x for x in rsp], a * src, [a * x for x in nse], sr, tshift, normalize=None, **kw))
    need_close(sc, raw, 'results for inputs multiplied by %s' % a, rtol=1e-6, atol=1e-8 * np.max(np.abs(raw)))
    # components are independent of each other
    j = int(rng.randint(len(rsp)))
    one = np.array(deconv_multitaper([rsp[j]], src, [nse[j]], sr, tshift, normalize=None, **kw))
    need_close(one[0], raw[j], 'component %d alone' % j, rtol=1e-9, atol=1e-12)


@case(20, 300)
def onset(rng, note):
    """deconvolving the source from a response which contains it peaks at the onset"""
    from rf import RFStream
    sr = pick(rng, [4., 5., 10.])
    n = int(rng.randint(int(70 * sr), int(110 * sr)))
    on = int(rng.randint(int(20 * sr), int(30 * sr)))
    tr = group(rng, 'LQ', n=n, sr=sr, onset_at=on / sr)
    w = np.zeros(n)
    t = (np.arange(n) - on) / sr
    lo, hi = 3, 12      # broadband wavelet
    w = np.where((t > -lo) & (t < hi), rng.randn(n), 0) * pick(rng, [1, -1, 50.])
    lev = .001 * np.max(np.abs(w))
    k = int(rng.randint(2 * sr, 8 * sr))
    a = pick(rng, [.5, -.5, .3])
    tr[0].data = w + lev * rng.randn(n)
    tr[1].data = a * np.roll(w, k) + lev * rng.randn(n)
    kw = {}
    if rng.rand() < .5:
        kw['winsrc'] = pick(rng, [(-5, 20, 2), (-10, 25, 5)])
    off = pick(rng, [0, 0, .3 / sr, -.4 / sr])
    for x in tr:
        x.stats.onset += off
    note.update(sr=sr, n=n, onset=on, lag=k, kw=repr(kw), off=off)
    s = RFStream(tr)
    nb = [(len(x), x.stats.starttime) for x in tr]
    with quiet():
        s.deconvolve('multitaper', **kw)
    need(len(s) == 2, 'number of results')
    for x, (l, st) in zip(s, nb):
        need(len(x) == l and x.stats.starttime == st and np.isfinite(x.data).all(), 'shape or start changed')
        need(abs(x.stats.onset - (st + on / sr)) < 1e-6, 'onset %s', x.stats.onset)
    L = s.select(component='L')[0].data
    need(abs(np.max(np.abs(L)) - 1) < 1e-9, 'largest value of the source component %s', np.max(np.abs(L)))
    i = int(np.argmax(L))
    need(i == on, 'peak of the source component at sample %d instead of %d', i, on)
    Q = s.select(component='Q')[0].data
    i = int(np.argmax(np.abs(Q)))
    need(abs(i - on - k) <= 1 and np.sign(Q[i]) == np.sign(a), 'peak of the response at sample %d instead of %d', i, on + k)


@case(20, 300)
def origin(rng, note):
    """the array function puts zero lag at the requested shift"""
    from rf.deconvolve import deconv_multitaper
    sr = pick(rng, [2., 4., 5.])
    nw = int(rng.randint(20 * sr, 30 * sr))
    nft = nw + int(rng.randint(20 * sr, 40 * sr))
    k = int(rng.randint(0, int(10 * sr)))
    on = int(rng.randint(0, nft - nw - k))
    src = rng.randn(nw)
    a = pick(rng, [1., -1., .4, -3])
    r = np.zeros(nft)
    r[on:on + nw] = a * src
    r += rng.randn(nft) * .001
    nse = rng.randn(int(rng.randint(10 * sr, nft))) * .001
    g = pick(rng, [None, .5, 1.])
    note.update(sr=sr, nw=nw, nft=nft, lag=on, shift=k, amplitude=a, gauss=g)
    x = deconv_multitaper([r], src, [nse], sr, -k / sr, gauss=g, normalize=pick(rng, [0, None]))[0]
    i = int(np.argmax(np.abs(x)))
    e = on + k
    far = np.abs(np.arange(nft) - e) > 2 * sr
    near = np.max(np.abs(x[~far]))
    if i != e and np.max(np.abs(x[far])) > .5 * near and near > .5 * np.max(np.abs(x)):
        raise Skip          # no dominant peak, draw outside of the precondition
    need(i == e and np.sign(x[i]) == np.sign(a), 'peak at sample %d instead of %d', i, on + k)


@case(12, 100)
def rejected(rng, note):
    """source not shorter than the response, noise longer than the response"""
    from rf.deconvolve import deconv_multitaper
    n = int(rng.randint(60, 120))
    kind = pick(rng, ['source', 'source', 'noise'])
    ls, ln = (n + pick(rng, [0, 0, 1, 20]), n) if kind == 'source' else (n // 2, n + pick(rng, [1, 1, 20]))
    note.update(kind=kind, n=n, ls=ls, ln=ln)
    raises(Exception, deconv_multitaper, [rng.randn(n)], rng.randn(ls), [rng.randn(ln)], 4., -2., T=5)
