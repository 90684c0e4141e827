"""C13: iterative deconvolution stays within its iteration and lag limits."""
import numpy as np
from rt.base import *


def spec(r0, src, sr, tshift, gauss, itmax, minderr, mute_shift):
    """independent reference -> result, iterations, misfits; also whether a choice was close to a tie"""
    from scipy.fftpack import next_fast_len
    dt = 1 / sr
    n = len(r0)
    nf = next_fast_len(2 * n)
    f = np.fft.fftfreq(nf, dt)
    G = np.exp(-0.5 * (f / gauss) ** 2)
    flt = np.fft.ifft(np.fft.fft(r0, nf) * G).real
    S = np.fft.fft(src, nf) * G
    s = np.fft.ifft(S).real
    p0 = np.zeros(nf)
    rem = flt.copy()
    powS, powR = np.sum(s ** 2), np.sum(flt ** 2)
    old, err, it, mis, tie = 1., 100 * powR + minderr, 0, [], powR < 1e-12 * np.sum(np.square(src))
    mmax = nf if mute_shift else nf - int(tshift * sr)
    while abs(err) > minderr and it < itmax:
        c = np.fft.ifft(np.fft.fft(rem) * np.conj(S)).real / powS / dt
        c[n:mmax] = 0
        o = np.sort(np.abs(c))[-2:]
        if len(o) > 1 and o[1] - o[0] <= 1e-9 * o[1]:
            tie = True
        i = int(np.argmax(np.abs(c)))
        p0[i] += c[i]
        rem = flt - np.fft.ifft(np.fft.fft(p0) * S).real * dt
        e = np.sum(rem ** 2) / powR
        mis.append(e)
        err = 100 * (old - e)
        if abs(abs(err) - minderr) < 1e-9:
            tie = True
        old = e
        it += 1
    P = np.exp(-2j * np.pi * f * tshift)
    x = np.fft.ifft(np.fft.fft(p0, nf) * G * P).real
    return x[:n], it, mis, tie, np.max(np.abs(x)), nf


@case(70, 1500)
def iteration(rng, note):
    """random responses of different length, limits, thresholds, delays, mute settings"""
    from rf.deconvolve import deconv_iterative
    nr = pick(rng, [1, 2, 3])
    sr = pick(rng, [1., 2., 5., 10.])
    M = int(rng.randint(8, 70))
    Ls = [M if rng.rand() < 0.7 else int(rng.randint(8, 70)) for _ in range(nr)]
    src = np.zeros(M)
    w = int(rng.randint(1, M + 1))
    src[:w] = rand_data(rng, w)
    if not np.any(src):
        src[0] = 1.
    src = src[:pick(rng, [M, M, max(2, M // 2)])]
    if not np.any(src):
        raise Skip()
    rsps = []
    for l in Ls:
        r = np.zeros(l)
        for _ in range(1 + rng.randint(4)):
            k, a = rng.randint(0, l), rng.uniform(-1, 1)
            seg = src[:l - k]
            r[k:k + len(seg)] += a * seg
        if rng.rand() < 0.5:
            r += 0.1 * rng.randn(l)
        rsps.append(r)
    if any(not np.any(r) for r in rsps):
        raise Skip()
    itmax = pick(rng, [1, 2, 5, 20, 60])
    minderr = pick(rng, [0.001, 0.001, 1., 10., 0.])
    tshift = pick(rng, [0, 2., 5., 10 / sr, 3.3])
    gauss = pick(rng, [0.5, 0.5, 1., sr / 5])
    mute = bool(rng.randint(2))
    norm = pick(rng, [0, None, nr - 1])
    if int(tshift * sr) > M:
        raise Skip()
    kw = dict(tshift=tshift, gauss=gauss, itmax=itmax, minderr=minderr, mute_shift=mute, normalize=norm)
    note.update(lengths=Ls, src_len=len(src), sr=sr, **kw)
    want = [spec(r, src, sr, tshift, gauss, itmax, minderr, mute) for r in rsps]
    ra, sa = [r.copy() for r in rsps], src.copy()
    out, its, rms = deconv_iterative(ra, sa, sr, **kw)
    for a, b in zip(ra, rsps):
        need(np.array_equal(a, b), 'response array modified')
    need(np.array_equal(sa, src), 'source array modified')
    need(len(out) == nr and len(its) == nr and len(rms) == nr, 'numbers of results')
    f = 1.
    if norm is not None:
        f = 1 / np.max(np.abs(want[norm][0]))
        if np.max(np.abs(want[norm][0])) < 1e-6 * want[norm][4]:
            raise Skip()  # all spikes outside of the result, scale is rounding error
    tie = any(w[3] for w in want)
    for i, (x, it, mis, _, peak, nf) in enumerate(want):
        need(len(out[i]) == Ls[i], 'length of result %d', i)
        need(its[i] <= itmax, '%d iterations with limit %d', its[i], itmax)
        m = np.asarray(rms[i])[:its[i]]
        need(np.all(np.diff(m) <= 1e-9), 'misfit increases: %s', m)
        need(its[i] >= itmax or its[i] < 1 or 100 * abs((m[-2] if len(m) > 1 else 1.) - m[-1]) <= minderr + 1e-9,
             'stopped early after %d iterations', its[i])
        for j in range(its[i] - 1):
            need(100 * abs((m[j - 1] if j else 1.) - m[j]) > minderr - 1e-9, 'not stopped after iteration %d', j + 1)
        if not tie:
            need(its[i] == it, '%d iterations instead of %d', its[i], it)
            need_close(m, mis, 'misfits', rtol=1e-6, atol=1e-9)
            need_close(out[i], x * f, 'result %d' % i, rtol=1e-6, atol=1e-8 * peak * f)
    if norm is not None:
        need_close(np.max(np.abs(out[norm])), 1, 'maximum of the reference result')


@case(8, 40)
def defaults(rng, note):
    """documented default limits: 400 iterations, threshold 0.001, no muting of negative lags, gauss 0.5, delay 10 s"""
    from rf.deconvolve import deconv_iterative
    sr, M = 2., 60
    src = np.zeros(M)
    src[:10] = rng.randn(10)
    r = np.convolve(src, rng.randn(5))[:M] + 0.05 * rng.randn(M)
    note['seed_data'] = float(r[0])
    with quiet():
        a = deconv_iterative([r], src, sr)
        b = deconv_iterative([r], src, sr, tshift=10, gauss=0.5, itmax=400, minderr=0.001, mute_shift=False, normalize=0)
    need_close(a[0][0], b[0][0], 'default options')
    need(a[1] == b[1], 'iterations')
