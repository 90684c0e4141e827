"""C12: frequency domain deconvolution follows the water level formula."""
import numpy as np
from rt.base import *


def dft(x, n):
    return np.fft.fft(x, n)


def spec(rsps, src, sr, waterlevel, gauss, tshift, N, norm, nfft):
    f = np.fft.fftfreq(nfft, 1 / sr)
    filt = np.exp(-2j * np.pi * f * tshift)
    if gauss is not None:
        filt = filt * np.exp(np.maximum(-0.5 * (f / gauss) ** 2, -700))
    S = dft(src, nfft)
    P = np.abs(S) ** 2
    P = np.maximum(P, waterlevel * P.max())
    out = [np.fft.ifft(filt * dft(r, nfft) * np.conj(S) / P)[:N] for r in rsps]
    if norm is None:
        f = 1.
    else:
        ref = np.fft.ifft(filt * S * np.conj(S) / P)[:N] if norm == 'src' else out[norm]
        f = 1 / np.max(ref)
        # the maximum of complex numbers is that with the largest real part; avoid ties
        o = np.sort(ref.real)
        if len(o) > 1 and o[-1] - o[-2] < 1e-9 * abs(o[-1]) and abs(f.imag) > 1e-9 * abs(f):
            raise Skip()
    return [o * f for o in out], f


@case(150, 3000)
def formula(rng, note):
    """random lengths, fft lengths, water levels, gauss widths, delays, normalizations"""
    from rf.deconvolve import deconv_waterlevel
    from scipy.fftpack import next_fast_len
    nr = pick(rng, [1, 2, 3])
    M = int(rng.randint(4, 90))
    L = int(rng.randint(2, M + 1)) if rng.rand() < 0.8 else M
    sr = pick(rng, [1., 2., 10., 5.])
    wl = pick(rng, [0.05, 0.05, 0.5, 1., 0.001, 0.2])
    gauss = pick(rng, [0.5, 0.5, None, 2., 0.1])
    tshift = pick(rng, [10., 0, 0., 3.5, -2., M / sr / 2])
    norm = pick(rng, [0, 0, None, 'src', nr - 1])
    length = pick(rng, [None, None, max(1, M // 2), M])
    nfft = pick(rng, [None, None, 2 * M, M + 3])
    single = rng.rand() < 0.2
    if single:
        nr = 1
        norm = pick(rng, [0, None, 'src'])
    rsps, src = [rand_data(rng, M) for _ in range(nr)], rand_data(rng, L)
    if not np.any(src):
        raise Skip()
    kw = dict(waterlevel=wl, gauss=gauss, tshift=tshift, normalize=norm, length=length, nfft=nfft)
    for k, v in dict(waterlevel=0.05, gauss=0.5, tshift=10., normalize=0, length=None, nfft=None).items():
        if kw[k] == v and kw[k] is not None or kw[k] is None and v is None:
            if rng.rand() < 0.5:
                del kw[k]
    note.update(nrsp=nr, rsp_len=M, src_len=L, sr=sr, single=single, waterlevel=wl, gauss=gauss, tshift=tshift,
                normalize=norm, length=length, nfft=nfft)
    N = length or M
    want, f = spec(rsps, src, sr, wl, gauss, tshift, N, norm, nfft or next_fast_len(N))
    big = np.max(np.abs(want))
    if not np.isfinite(big) or (norm is not None and (abs(f) > 1e8 or not np.isfinite(f))):
        raise Skip()
    if norm not in (None,):
        # the maximum of nearly real complex values must not depend on rounding
        ref = want[norm if norm != 'src' else 0]
        if norm != 'src' and abs(np.max(ref.real) - 1) > 1e-9:
            raise Skip()
    ra, sa = [r.copy() for r in rsps], src.copy()
    ret = rng.rand() < 0.15
    if ret:
        kw['return_info'] = True
    got = deconv_waterlevel(ra[0] if single else pick(rng, [list, tuple])(ra), sa, sr, **kw)
    if ret:
        got, info = got
        need(set(info) >= {'rf_src', 'freq', 'norm', 'N', 'nfft'}, 'info %s', sorted(info))
        need(info['N'] == N, 'N')
    elif single:
        need(isinstance(got, np.ndarray) and got.ndim == 1, 'single array expected, got %s', type(got))
        got = [got]
    need(len(got) == len(want), '%d results', len(got))
    for i, (g, w) in enumerate(zip(got, want)):
        need(len(g) == N, 'length %d instead of %d', len(g), N)
        need_close(np.real(g), np.real(w), 'result %d' % i, rtol=1e-6, atol=1e-7 * big)
    for a, b in zip(ra, rsps):
        need(np.array_equal(a, b), 'response array modified')
    need(np.array_equal(sa, src), 'source array modified')
    if norm not in (None, 'src'):
        need_close(np.max(np.real(got[norm])), 1, 'maximum of the reference')


@case(12, 100)
def zero_lag(rng, note):
    """a delayed copy of the source gives its maximum at the delay plus tshift"""
    from rf.deconvolve import deconv_waterlevel
    sr = pick(rng, [1., 2., 5.])
    M = int(rng.randint(80, 120))
    src = np.zeros(M)
    src[:12] = rng.randn(12)
    k, ts = int(rng.randint(0, 20)), int(rng.randint(0, 30))
    rsp = np.roll(src, k)
    note.update(sr=sr, M=M, delay=k, tshift=ts / sr)
    g = deconv_waterlevel([src, rsp], src, sr, waterlevel=1e-3, gauss=sr / 4, tshift=ts / sr, nfft=2 * M)
    need(int(np.argmax(np.real(g[0]))) == ts, 'zero lag at sample %d instead of %d', int(np.argmax(np.real(g[0]))), ts)
    need(int(np.argmax(np.real(g[1]))) == ts + k, 'delay at sample %d instead of %d', int(np.argmax(np.real(g[1]))), ts + k)
