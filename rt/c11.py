"""C11: time domain deconvolution solves the damped normal equations."""
import numpy as np
from rt.base import *


def spec(rsps, src, shift, spiking, length, norm):
    """independent reference: explicit sums, dense solver"""
    N = length
    L = len(src)
    acf = np.array([np.dot(src[:L - k], src[k:]) if k < L else 0. for k in range(N)])
    col = acf / acf[0]
    col[0] += spiking
    A = col[np.abs(np.arange(N)[:, None] - np.arange(N)[None, :])]
    out, rhs = [], []
    for r in rsps:
        # signals aligned around their middle, response additionally shifted to the left:
        # sample j of the right hand side belongs to lag  lag0 + j  of response relative to source
        M = len(r)
        a, b = r, src
        if shift > 0:
            a = np.hstack([np.zeros(2 * shift), r])
        elif shift < 0:
            a = np.hstack([r, np.zeros(-2 * shift)])
        dif = len(a) - L + 1 - N
        # first lag: position of the source start inside of a for the first output sample
        lag0 = -((-dif + 1) // 2) if dif <= 0 else (dif + 1) // 2
        x = np.zeros(N)
        for j in range(N):
            lo = lag0 + j
            for m in range(max(0, -lo), min(L, len(a) - lo)):
                x[j] += a[lo + m] * src[m]
        rhs.append(x)
        out.append(np.linalg.solve(A, x))
    if norm is not None:
        f = 1 / np.max(np.abs(out[norm]))
        out = [o * f for o in out]
    return out, A, rhs


@case(120, 2500)
def solution(rng, note):
    """random lengths (odd/even, source longer or shorter than response), shifts, dampings, normalizations"""
    from rf.deconvolve import deconv_time
    nr = pick(rng, [1, 2, 3])
    M = int(rng.randint(2, 40))
    L = int(rng.randint(1, 40))
    length = pick(rng, [None, None, None, int(rng.randint(1, 45))])
    shift = pick(rng, [0, 0, int(rng.randint(-20, 21)), 1, -1])
    spiking = pick(rng, [1., 0.1, 10, 0.5, 2])
    norm = pick(rng, [0, 0, None, nr - 1])
    single = rng.rand() < 0.15
    kw = {'spiking': spiking, 'normalize': norm}
    if length is not None:
        kw['length'] = length
    if spiking == 1. and rng.rand() < 0.5:
        del kw['spiking']
    if norm == 0 and rng.rand() < 0.5:
        del kw['normalize']
    kind = pick(rng, ['toeplitz', 'scipy', 'custom'])
    if kind == 'scipy':
        kw['solve_toeplitz'] = 'scipy'
    elif kind == 'custom':
        from scipy.linalg import toeplitz
        kw['solve_toeplitz'] = lambda a, b: np.linalg.solve(toeplitz(a), b)
    rsps = [rand_data(rng, M) for _ in range(nr)]
    if rng.rand() < 0.15:
        rsps = [r + 3 for r in rsps]
    src = rand_data(rng, L)
    if not np.any(src):
        src[0] = 1.
    if np.dot(src, src) == 0:
        raise Skip()
    if single:
        rsps = rsps[:1]
        if norm not in (0, None):
            kw['normalize'] = norm = 0
    note.update(nrsp=len(rsps), rsp_len=M, src_len=L, length=length, shift=shift, spiking=spiking, normalize=norm,
                solver=kind, single=single)
    want, A, rhs = spec(rsps, src, shift, spiking, length or M, norm)
    if not np.all(np.isfinite(want)) or np.linalg.cond(A) > 1e8 or \
            (norm is not None and np.max(np.abs(rhs[norm])) < 1e-9 * np.dot(src, src)):
        raise Skip()
    ra, sa = [r.copy() for r in rsps], src.copy()
    arg = ra[0] if single else pick(rng, [list, tuple])(ra)
    with quiet():
        got = deconv_time(arg, sa, shift, **kw)
    if single:
        need(isinstance(got, np.ndarray), 'single array expected, got %s', type(got))
        got = [got]
    need(len(got) == len(want), '%d results', len(got))
    for i, (g, w) in enumerate(zip(got, want)):
        need_close(g, w, 'result %d' % i, rtol=1e-6, atol=1e-7 * max(np.max(np.abs(w)), 1e-300))
    for a, b in zip(ra, rsps):
        need(np.array_equal(a, b), 'response array modified')
    need(np.array_equal(sa, src), 'source array modified')


@case(10, 60)
def self_deconvolution(rng, note):
    """source deconvolved from a delayed copy of itself: largest value at the delay"""
    from rf.deconvolve import deconv_time
    L, M = int(rng.randint(5, 15)), int(rng.randint(40, 70))
    src = np.zeros(L)
    src[0] = 1.
    src[1:] = rng.uniform(-.2, .2, L - 1)
    k = int(rng.randint(0, M - L))
    rsp = np.zeros(M)
    rsp[k:k + L] = src
    note.update(src_len=L, rsp_len=M, delay=k)
    shift = 0
    with quiet():
        g = deconv_time([rsp], src, shift, spiking=0.1)[0]
    dif = M - L + 1 - M
    lag0 = -((-dif + 1) // 2)
    need(int(np.argmax(np.abs(g))) == k - lag0, 'maximum at %d instead of %d', int(np.argmax(np.abs(g))), k - lag0)
    need_close(np.max(np.abs(g)), 1, 'maximum')
