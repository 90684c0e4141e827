"""C11: time domain deconvolution (rf.deconvolve.deconv_time, _acorrt, _xcorrt, _add_zeros)"""
import z3
from dv.contracts.lib import *

CONTRACTS, contract = registry()
LIB = ['scipy.signal.correlate(a, b, "valid")[k] is the sum over j of a[k + j] b[j], len(b) <= len(a); '
       'scipy.linalg.solve_toeplitz and toeplitz.sto_sl return the solution of the symmetric Toeplitz system, a function '
       'of the first column and the right hand side']


def ext(x):
    n = x.shape[0]
    return lambda i: ite(z3.And(core.int_t(i) >= 0, core.int_t(i) < core.int_t(n)), x.at(i), 0.)


def autocorrelation(src, N):
    """sum over m of src[m + k] src[m], lag k = 0 .. N - 1"""
    s = ext(src)
    return stubs.sum_over_integers((N,), lambda k, m: s(lift(k) + m) * s(m))


def crosscorrelation(rsp, src, N, lag0):
    """sum over m of rsp[lag0 + k + m] src[m], k = 0 .. N - 1"""
    r, s = ext(rsp), ext(src)
    return stubs.sum_over_integers((N,), lambda k, m: r(lag0 + k + m) * s(m))


def first_lag(M, L, N, shift):
    """lag of the first sample: both signals aligned around their middle, the response moved by shift to the left"""
    pad = 2 * abs(shift)
    d = M + pad - L + 1 - N
    lag = (d + 1) // 2 if d > 0 else -((1 - d) // 2)
    return lag - pad if shift > 0 else lag


@contract('rf.deconvolve._xcorrt', 'rf.deconvolve._add_zeros', expect=['length', 'lags'], cover=['left', 'right', 'none'],
          assumptions=LIB)
def cross(E, load):
    """cross-correlation at num lags beginning at the lag implied by alignment and shift"""
    mod = load('rf.deconvolve')
    M, L, N, shift = E.int('M', 1), E.int('L', 1), E.int('N', 1), E.int('shift')
    a, b = SArr.symbolic('a', M), SArr.symbolic('b', L)
    fa, fb = core.freeze(a), core.freeze(b)
    r = mod._xcorrt(a, b, N, shift)
    E.prove('length', veq(r.shape[0], N))
    want = crosscorrelation(fa, fb, N, first_lag(M, L, N, shift))
    k = E.int('k', 0)
    E.assume(k.t < N.t)
    E.prove('lags', veq(r.at(k), want.at(k)))
    E.prove('inputs', AND(core.arr_eq(a, fa), core.arr_eq(b, fb)))
    E.cover('left' if shift > 0 else 'right' if shift < 0 else 'none')


@contract('rf.deconvolve._acorrt', 'rf.deconvolve._add_zeros', expect=['length', 'lags'], cover=['end'], assumptions=LIB)
def auto(E, load):
    """autocorrelation at the lags 0 .. num - 1"""
    mod = load('rf.deconvolve')
    L, N = E.int('L', 1), E.int('N', 1)
    a = SArr.symbolic('a', L)
    fa = core.freeze(a)
    r = mod._acorrt(a, N)
    E.prove('length', veq(r.shape[0], N))
    k = E.int('k', 0)
    E.assume(k.t < N.t)
    E.prove('lags', veq(r.at(k), autocorrelation(fa, N).at(k)))
    E.prove('inputs', core.arr_eq(a, fa))
    E.cover('end')


@contract('rf.deconvolve.deconv_time', expect=['count', 'solution', 'length', 'inputs', 'column', 'right'],
          cover=['single', 'list', 'none', 'custom', 'normalized'], max_paths=6000,
          assumptions=LIB + ['one to three responses', 'the source is not zero, the autocorrelation has a positive value '
                             'at zero lag; the reference result is not zero'])
def deconv(E, load):
    """result for each response: solution for first column acf / acf[0] + spiking at lag 0 and the cross-correlation of
    this response as right hand side, times one factor 1 / max |result[normalize]| unless normalize is None"""
    if E.choose(2):
        E.loader.stubs['toeplitz'] = None
    mod = load('rf.deconvolve')
    single = E.choose(2)
    n = 1 if single else 1 + E.choose(3)
    M, L, shift, spiking = E.int('M', 1), E.int('L', 1), E.int('shift'), E.real('spiking')
    Ms = [M] + [E.int('M%d' % i, 1) for i in range(1, n)]
    rsp = [SArr.symbolic('rsp%d' % i, Ms[i]) for i in range(n)]
    src = SArr.symbolic('src', L)
    kw = {}
    given = E.choose(2)
    N = M
    if given:
        N = kw['length'] = E.int('N', 1)
    norm = (None, 0, n - 1)[E.choose(3 if n > 1 else 2)]
    if norm != 0 or given:
        kw['normalize'] = norm
    if given:
        kw['spiking'] = spiking
    else:
        spiking = SNum(z3.RealVal(1))
    solver = ('toeplitz', 'scipy', 'custom')[E.choose(3)]
    calls = []

    def custom(a, b):
        calls.append((core.freeze(a), core.freeze(b)))
        return stubs.solve_toeplitz_scipy(a, b)
    if solver != 'toeplitz' or given:
        kw['solve_toeplitz'] = custom if solver == 'custom' else solver
    # correlations by their contracts, proved above (a function of both arrays, number of lags and shift)
    made = {'a': [], 'x': []}

    def _acorrt(a, num):
        r = autocorrelation(core.freeze(a), num)
        made['a'].append((core.freeze(a), num))
        return r.copy()

    def _xcorrt(a, b, num, zero_sample=0):
        made['x'].append((core.freeze(a), core.freeze(b), num, zero_sample))
        a, b = core.freeze(a), core.freeze(b)
        return corr(a, b, num, zero_sample).copy()

    def corr(a, b, num, zero_sample):
        return stubs.opaque_array('xcorr', (num,), (None,), lambda i: SCplx2(ext(a)(i), ext(b)(i)),
                                  extra=(num, zero_sample))
    mod._acorrt, mod._xcorrt = _acorrt, _xcorrt
    frozen = [core.freeze(a) for a in rsp + [src]]
    acf = autocorrelation(frozen[-1], N)
    E.assume((acf.at(0) > 0).t)
    col = SArr((N,), lambda k: div(acf.at(k), acf.at(0)) + ite(core.int_t(k) == 0, spiking, 0.), 'f')
    sol = [stubs.solve_toeplitz_scipy(col, corr(frozen[i], frozen[-1], N, shift)) for i in range(n)]
    factor = SNum(z3.RealVal(1))
    if norm is not None:
        top = stubs.np_max(stubs.np_abs(sol[norm]))
        E.assume(top.t > 0)
        factor = div(1, top)
        E.cover('normalized')
    arg = rsp[0] if single else (DList(rsp) if E.choose(2) else tuple(rsp))
    got = mod.deconv_time(arg, src, shift, **kw)
    if single:
        E.prove('count', isinstance(got, SArr))
        got = [got]
    else:
        E.prove('count', isinstance(got, list) and len(got) == n)
    k = E.int('k', 0)
    E.assume(k.t < N.t)
    for g, w in zip(got, sol):
        E.prove('length', veq(g.shape[0], N))
        E.prove('solution', veq(g.at(k), w.at(k) * factor))
    E.prove('inputs', AND(*[core.arr_eq(a, b) for a, b in zip(rsp + [src], frozen)]))
    E.cover('single' if single else 'list')
    E.cover('none' if norm is None else 'custom')
    if solver == 'custom':
        E.prove('column', AND(len(calls) == n, *[veq(c[0].at(k), col.at(k)) for c in calls]))
        E.prove('right', AND(*[veq(c[1].at(k), corr(f, frozen[-1], N, shift).at(k)) for c, f in zip(calls, frozen)]))


def SCplx2(a, b):
    return core.SCplx(lift(a), lift(b))
