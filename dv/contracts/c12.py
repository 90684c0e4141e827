"""C12: frequency domain deconvolution (rf.deconvolve.deconv_waterlevel, _gauss_filter, _phase_shift_filter)"""
import z3
from dv.contracts.lib import *

CONTRACTS, contract = registry()
LIB = ['scipy.fftpack fft and ifft of n points are functions of the first n samples (zero padded); next_fast_len(n) >= n; '
       'numpy.max is a function of the array; exp, sin and cos are functions with exp > 0']


def frequency(n, dt):
    """k / (n dt) for k < (n + 1) // 2, else (k - n) / (n dt)"""
    def f(k):
        k = lift(k)
        return div(SNum(z3.If(k.t < (n.t + 1) / 2, k.t, k.t - n.t)), n * dt)
    return f


def shift_filter(n, dt, tshift):
    f = frequency(n, dt)
    one = lambda k: stubs.np_exp(core.SCplx(0, -2 * stubs.PI() * f(k) * tshift))
    return SArr((n,), one, 'c')


def gauss_filter(n, dt, f0, level):
    f = frequency(n, dt)

    def one(k):
        x = div(f(k), f0)
        a = SNum(z3.RealVal('-1/2')) * x * x
        return stubs.np_exp(a if level is None else core.smax(a, lift(level)))
    return SArr((n,), one, 'f')


@contract('rf.deconvolve._phase_shift_filter', expect=['length', 'value'], cover=['end'], assumptions=LIB)
def phase_shift(E, load):
    """exp(-2 pi i f tshift) at the frequencies of the discrete Fourier transform"""
    mod = load('rf.deconvolve')
    n, dt, ts = E.int('n', 1), E.real('dt'), E.real('tshift')
    E.assume(dt.t > 0)
    r = mod._phase_shift_filter(n, dt, ts)
    k = E.int('k', 0)
    E.assume(k.t < n.t)
    E.prove('length', veq(r.shape[0], n))
    E.prove('value', veq(r.at(k), shift_filter(n, dt, ts).at(k)))
    E.cover('end')


@contract('rf.deconvolve._gauss_filter', expect=['length', 'value'], cover=['end', 'level'], assumptions=LIB)
def gaussian(E, load):
    """exp(-(f / f0)^2 / 2) at the frequencies of the discrete Fourier transform; exponent clipped from below"""
    mod = load('rf.deconvolve')
    n, dt, f0 = E.int('n', 1), E.real('dt'), E.real('f0')
    E.assume(z3.And(dt.t > 0, f0.t > 0))
    level = None
    if E.choose(2):
        level = E.real('level')
        r = mod._gauss_filter(dt, n, f0, waterlevel=level)
        E.cover('level')
    else:
        r = mod._gauss_filter(dt, n, f0)
    k = E.int('k', 0)
    E.assume(k.t < n.t)
    E.prove('length', veq(r.shape[0], n))
    E.prove('value', veq(r.at(k), gauss_filter(n, dt, f0, level).at(k)))
    E.cover('end')


def mul(a, b):
    return SArr(a.shape, lambda k: a.at(k) * b.at(k), 'c')


def spectrum(filt, r, src, level, nfft):
    """filt fft(r) conj(fft(src)) / max(|fft(src)|^2, level max |fft(src)|^2)"""
    S, R = stubs.np_fft_fft(src, nfft), stubs.np_fft_fft(r, nfft)
    power = SArr((nfft,), lambda k: S.at(k).re * S.at(k).re + S.at(k).im * S.at(k).im, 'f')
    top = stubs.np_max(power)

    def one(k):
        c, s = R.at(k), S.at(k)
        p = core.smax(power.at(k), top * level)
        v = filt.at(k) * c * core.SCplx(s.re, -s.im)
        return core.SCplx(div(v.re, p), div(v.im, p))
    return SArr((nfft,), one, 'c')


@contract('rf.deconvolve.deconv_waterlevel', expect=['count', 'result', 'length', 'inputs', 'filters'],
          cover=['single', 'list', 'src', 'none', 'trace', 'nogauss', 'defaults'], max_paths=6000,
          assumptions=LIB + ['one to three responses, the source is not longer than the Fourier transform',
                             '_gauss_filter and _phase_shift_filter enter by their contracts proved above'])
def waterlevel(E, load):
    """for each response the first N samples of the inverse transform of filter times response spectrum times conjugate
    source spectrum over the clipped source power, times one common factor"""
    mod = load('rf.deconvolve')
    kind = E.choose(4)
    single = kind == 0
    n = max(kind, 1)
    M, L, sr = E.int('M', 1), E.int('L', 1), E.real('sr')
    E.assume(sr.t > 0)
    Ms = [M] + [E.int('M%d' % i, 1) for i in range(1, n)]
    rsp = [SArr.symbolic('rsp%d' % i, Ms[i]) for i in range(n)]
    src = SArr.symbolic('src', L)
    filters = []

    def _phase_shift_filter(nft, dt, tshift):
        filters.append(('shift', nft, dt, tshift))
        return shift.copy()

    def _gauss_filter(dt, nft, f0, waterlevel=None):
        filters.append(('gauss', nft, dt, f0, waterlevel))
        return gs.copy()
    mod._phase_shift_filter, mod._gauss_filter = _phase_shift_filter, _gauss_filter
    kw = {}
    N, level, ts = M, SNum(z3.Q(5, 100)), SNum(z3.RealVal(10))
    nfft = None
    if E.choose(2):
        N = kw['length'] = E.int('N', 1)
        nfft = kw['nfft'] = E.int('nfft', 1)
        E.assume(nfft.t >= N.t)
        level = kw['waterlevel'] = E.real('level')
        ts = kw['tshift'] = E.real('tshift')
    else:
        E.cover('defaults')
    nfft = nfft if nfft is not None else stubs.next_fast_len(N)
    g = (None, 'default', 'given')[E.choose(3)]
    if g != 'default':
        kw['gauss'] = None if g is None else E.real('f0')
    else:
        g = SNum(z3.Q(1, 2))
    norm = ([None, 'src', 0] + ([n - 1] if n > 1 else []))[E.choose(3 if n == 1 else 4)]
    if norm != 0 or kw:
        kw['normalize'] = norm
    re, im = [z3.Function(E.name(b), z3.IntSort(), z3.RealSort()) for b in ('H_re', 'H_im')]
    shift = SArr((nfft,), lambda k: core.SCplx(SNum(re(core.int_t(k))), SNum(im(core.int_t(k)))), 'c')
    gs = SArr.symbolic('G', nfft)
    frozen = [core.freeze(a) for a in rsp + [src]]
    filt = shift if g is None else SArr((nfft,), lambda k: shift.at(k) * gs.at(k), 'c')
    want = [stubs.np_fft_ifft(spectrum(filt, r, frozen[-1], level, nfft), nfft) for r in frozen[:-1]]
    factor = core.SCplx(1, 0)
    if norm is not None:
        ref = want[norm] if norm != 'src' else stubs.np_fft_ifft(spectrum(filt, frozen[-1], frozen[-1], level, nfft), nfft)
        top = stubs.np_max(SArr((N,), ref.at, 'c'))
        E.assume(z3.Or(top.re.t != 0, top.im.t != 0))
        factor = core.SCplx(1, 0) / top
    arg = rsp[0] if single else (DList(rsp) if E.choose(2) else tuple(rsp))
    got = mod.deconv_waterlevel(arg, src, sr, **kw)
    if single:
        E.prove('count', isinstance(got, SArr))
        got = [got]
    else:
        E.prove('count', isinstance(got, list) and len(got) == n)
    f0 = kw.get('gauss', SNum(z3.Q(1, 2)))
    dt = div(1, sr)
    E.prove('filters', AND(*[AND(veq(f[1], nfft), veq(f[2], dt), veq(f[3], ts if f[0] == 'shift' else f0)) for f in filters]))
    E.prove('filters', sorted(f[0] for f in filters) == (['shift'] if g is None else ['gauss', 'shift']))
    for f in filters:
        if f[0] == 'gauss':
            # a lower limit that keeps at least exp(-40) does not touch the pass band
            E.prove('filters', f[4] is None or bool(lift(f[4]) <= -40))
    k = E.int('k', 0)
    E.assume(k.t < N.t)
    for r, w in zip(got, want):
        E.prove('length', veq(r.shape[0], N))
        E.prove('result', veq(core.SCplx.of(r.at(k)), core.SCplx.of(w.at(k)) * factor))
    E.prove('inputs', AND(*[core.arr_eq(a, b) for a, b in zip(rsp + [src], frozen)]))
    E.cover('single' if single else 'list')
    E.cover({None: 'none', 'src': 'src'}.get(norm, 'trace'))
    if g is None:
        E.cover('nogauss')
