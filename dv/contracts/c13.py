"""C13: iterative deconvolution (rf.deconvolve.deconv_iterative, _apply_filter)

The while loop is verified with a Hoare invariant over arbitrary iteration counts.  Loop variables are found by their
role (their values on entry), not by name."""
import z3
from dv.contracts.lib import *

CONTRACTS, contract = registry()
LIB = ['scipy.fftpack fft and ifft of n points are functions of the first n samples (zero padded); next_fast_len(n) >= n; '
       'numpy sum and argmax are functions of the array']
DFT = ['lemma misfit: with the convolution theorem and the shift property of the discrete Fourier transform, a spike of '
       'amplitude a at lag i changes the squared remainder by -2 a dt x + a^2 dt^2 P, x the correlation of remainder and '
       'source at lag i, P the source power']


def cplx(E, base, n):
    re, im = [z3.Function(E.name(base + x), z3.IntSort(), z3.RealSort()) for x in ('_re', '_im')]
    return SArr((n,), lambda k: core.SCplx(SNum(re(core.int_t(k))), SNum(im(core.int_t(k)))), 'c')


def real(a):
    return SArr(a.shape, lambda k: core.SCplx.of(a.at(k)).re, 'f')


def times(a, b):
    return SArr(a.shape, lambda k: core.SCplx.of(a.at(k)) * b.at(k), 'c')


def conj(a):
    return SArr(a.shape, lambda k: core.SCplx.of(a.at(k)).conj(), 'c')


def power(a):
    return stubs.np_sum(SArr(a.shape, lambda k: a.at(k) * a.at(k), 'f'))


@contract('rf.deconvolve._apply_filter', expect=['value', 'length'], cover=['end'], assumptions=LIB)
def apply_filter(E, load):
    """real part of the inverse transform of the filtered spectrum, as long as the filter"""
    mod = load('rf.deconvolve')
    M, n = E.int('M', 1), E.int('n', 1)
    x, f = SArr.symbolic('x', M), cplx(E, 'filter', n)
    fx = core.freeze(x)
    r = mod._apply_filter(x, f)
    k = E.int('k', 0)
    E.assume(k.t < n.t)
    E.prove('length', veq(r.shape[0], n))
    E.prove('value', veq(r.at(k), real(stubs.np_fft_ifft(times(stubs.np_fft_fft(fx, n), f), n)).at(k)))
    E.prove('inputs', core.arr_eq(x, fx))
    E.cover('end')


class Component(object):
    """what is known about one response before its loop starts"""

    def __init__(self, E, r, src, sr, gauss, shiftf, itmax, minderr, tshift, mute):
        self.r, self.M = r, r.shape[0]
        self.nfft = stubs.next_fast_len(2 * lift(self.M))
        n = self.nfft
        self.gauss, self.shiftf = gauss(n), shiftf(n)
        self.flt = core.freeze(real(stubs.np_fft_ifft(times(stubs.np_fft_fft(r, n), self.gauss), n)))
        self.S = core.freeze(times(stubs.np_fft_fft(src, n), self.gauss))
        self.powS = power(real(stubs.np_fft_ifft(self.S, n)))
        self.powR = power(self.flt)
        E.assume(z3.And(self.powS.t > 0, self.powR.t > 0))
        self.itmax, self.minderr, self.dt = itmax, minderr, div(1, sr)
        E.assume(z3.And(self.dt.t > 0, self.dt.t * sr.t == 1))
        w = core.strunc(tshift * sr)
        E.assume(z3.And(w.t >= 0, w.t <= self.M.t))
        self.mute_max = n if mute else n - w
        self.kept = n - lift(self.mute_max)

    def correlation(self, rem):
        """normalized correlation of remainder and source; zero at the muted lags"""
        c = real(stubs.np_fft_ifft(times(stubs.np_fft_fft(rem, self.nfft), conj(self.S)), self.nfft))
        one = lambda k: div(div(c.at(k), self.powS), self.dt)
        muted = lambda k: z3.And(core.int_t(k) >= self.M.t, core.int_t(k) < core.int_t(self.mute_max))
        return SArr((self.nfft,), lambda k: ite(muted(k), SNum(z3.RealVal(0)), one(k)), 'f'), c

    def remainder(self, p):
        x = real(stubs.np_fft_ifft(times(stubs.np_fft_fft(p, self.nfft), self.S), self.nfft))
        return SArr((self.nfft,), lambda k: self.flt.at(k) - x.at(k) * self.dt, 'f')

    def filtered(self, p0):
        n = self.nfft
        g = SArr((n,), lambda k: self.gauss.at(k) * self.shiftf.at(k), 'c')
        x = real(stubs.np_fft_ifft(times(stubs.np_fft_fft(p0, n), g), n))
        return core.freeze(SArr((self.M,), x.at, 'f'))


class Loop(object):
    """invariant: it <= itmax; p0 the spikes, rem the remainder (of the filtered response at it = 0), old its relative
    power (1 at it = 0), rms[it - 1] = old if it > 0; err the last change in percent (anything above minderr at it = 0)"""

    def __init__(self, E, comps, norm):
        self.E, self.comps, self.norm, self.n, self.states = E, comps, norm, 0, []

    def enter(self, loc, names):
        E = self.E
        c = self.comps[self.n]
        j = self.n
        self.n += 1
        role = {}
        zero = lambda a, n: isinstance(a, SArr) and a.ndim == 1 and holds(veq(a.shape[0], n)) and \
            holds(veq(a.at(E.int('z')), SNum(z3.RealVal(0))))
        start = 100 * c.powR + c.minderr
        for nm in names:
            v = loc.get(nm)
            if isinstance(v, SArr):
                if zero(v, c.nfft):
                    role.setdefault('p0', nm)
                elif zero(v, c.itmax):
                    role.setdefault('rms', nm)
                elif holds(core.arr_eq(v, c.flt)):
                    role.setdefault('rem', nm)
            elif core.isnumber(v):
                if holds(veq(v, 0)):
                    role.setdefault('it', nm)
                elif holds(veq(v, 1)):
                    role.setdefault('old', nm)
                else:
                    role.setdefault('err', nm)
        need(set(role) == {'p0', 'rms', 'rem', 'it', 'old', 'err'}, 'loop variables %s' % sorted(role))
        # the first test succeeds (unless no iteration is allowed): the change is larger than the threshold
        E.prove('start', abs(loc[role['err']]) > c.minderr)
        b = 'c%d_' % j
        it = E.int(b + 'it', 0)
        p0 = SArr.symbolic(b + 'p0', c.nfft)
        rms = SArr.symbolic(b + 'rms', c.itmax)
        first = E.choose(2) == 0
        if first:
            E.assume(it.t == 0)
            it = lift(0)
            p0 = loc[role['p0']].copy()
            rem, old, err = c.flt.copy(), lift(1), loc[role['err']]
            rms = loc[role['rms']].copy()
        else:
            E.assume(z3.And(it.t >= 1, it.t <= c.itmax.t))
            rem = core.freeze(c.remainder(core.freeze(p0)))
            prev = E.real(b + 'before')
            old = div(power(rem), c.powR)
            err = 100 * (prev - old)
            E.assume(zb(veq(rms.at(it - 1), old)))
        st = dict(p0=core.freeze(p0), rms=core.freeze(rms), rem=core.freeze(rem), it=it, old=old, err=err, role=role,
                  comp=c, first=first)
        self.states.append(st)
        x = c.filtered(st['p0'])
        st['raw'] = x
        if j == self.norm:
            st['top'] = stubs.np_max(stubs.np_abs(x))
            E.assume(st['top'].t > 0)
        w = {nm: core.POISON for nm in names}
        for k, v in (('p0', p0), ('rms', rms), ('rem', rem.copy()), ('it', it), ('old', old), ('err', err)):
            w[role[k]] = v
        return w

    def back(self, w, loc):
        E, st = self.E, self.states[-1]
        c, role = st['comp'], st['role']
        new = {k: loc[n] for k, n in role.items()}
        E.prove('guard', AND(abs(st['err']) > c.minderr, st['it'] < c.itmax))
        cor, x = c.correlation(st['rem'])
        i = stubs.np_argmax(stubs.np_abs(cor))
        a = cor.at(i)
        k = E.int('k', 0)
        E.assume(k.t < c.nfft.t)
        p = SArr((c.nfft,), lambda j: st['p0'].at(j) + ite(core.int_t(j) == i.t, a, SNum(z3.RealVal(0))), 'f')
        E.prove('spike', AND(veq(new['p0'].shape[0], c.nfft), veq(new['p0'].at(k), p.at(k))))
        rem = c.remainder(p)
        E.prove('remainder', AND(veq(new['rem'].shape[0], c.nfft), veq(new['rem'].at(k), rem.at(k))))
        mis = div(power(rem), c.powR)
        E.prove('misfit', AND(veq(new['old'], mis), veq(new['rms'].at(st['it']), mis)))
        j = E.int('j', 0)
        E.assume(z3.And(j.t < c.itmax.t, j.t != st['it'].t))
        E.prove('misfits', AND(veq(new['rms'].shape[0], c.itmax), veq(new['rms'].at(j), st['rms'].at(j))))
        E.prove('change', veq(new['err'], 100 * (st['old'] - mis)))
        E.prove('count', veq(new['it'], st['it'] + 1))
        # lemma: the squared remainder never increases
        before, after = power(st['rem']), power(rem)
        E.assume(after.t == (before - 2 * a * c.dt * x.at(i) + a * a * c.dt * c.dt * c.powS).t)
        muted = AND(i >= c.M, i < c.mute_max)
        # by cases: a muted lag (only if all correlations vanish), or a c.dt c.powS = x(i)
        E.prove('amplitude', OR(a == 0, AND(NOT(muted), a * c.dt * c.powS == x.at(i))))
        q = E.real('q')
        E.assume(z3.And(q.t == (a * c.dt).t))
        E.assume(z3.Or(q.t == 0, (q * c.powS).t == x.at(i).t))
        E.prove('decrease', z3.Implies(z3.And((before - 2 * q * x.at(i) + q * q * c.powS).t == after.t), after.t <= before.t))
        E.cover('iteration')


@contract('rf.deconvolve.deconv_iterative', expect=['start', 'guard', 'spike', 'remainder', 'misfit', 'misfits', 'change',
                                                    'count', 'decrease', 'amplitude', 'stopped', 'limit', 'reported',
                                                    'result', 'length', 'inputs', 'filters'],
          cover=['iteration', 'end', 'several'], max_paths=3000, budget=190,
          assumptions=LIB + DFT + ['one or two responses with nonzero filtered power, nonzero reference result, delay within the response length',
                                   '_gauss_filter and _phase_shift_filter enter by their contracts (C12)'])
def iterative(E, load):
    """per response: spikes are added while the change exceeds the threshold and the limit is not reached; results are
    filtered, delayed, cut and scaled by one common factor"""
    mod = load('rf.deconvolve')
    n = 1 + E.choose(2)
    sr, src = E.real('sr'), SArr.symbolic('src', E.int('L', 1))
    E.assume(sr.t > 0)
    rsp = [SArr.symbolic('rsp%d' % i, E.int('M%d' % i, 1)) for i in range(n)]
    kw = {}
    itmax, minderr, tshift, f0 = lift(400), SNum(z3.Q(1, 1000)), lift(10), SNum(z3.Q(1, 2))
    mute = False
    if E.choose(2):
        itmax, minderr, tshift, f0 = E.int('itmax', 1), E.real('minderr'), E.real('tshift'), E.real('f0')
        E.assume(z3.And(minderr.t >= 0, tshift.t >= 0))
        kw.update(itmax=itmax, minderr=minderr, tshift=tshift, gauss=f0)
        mute = kw['mute_shift'] = bool(E.choose(2))
    norm = (0, None, n - 1)[E.choose(2 if n == 1 else 3)]
    if norm != 0:
        kw['normalize'] = norm
    calls, made = [], {}

    def filt(kind, n):
        for k, m, a in made.setdefault(kind, []):
            if holds(veq(m, n)):
                return a.copy()
        a = SArr.symbolic(E.name('gaussf'), n) if kind == 'gauss' else cplx(E, 'shiftf', n)
        made[kind].append((kind, n, a))
        return a.copy()

    def _gauss_filter(dt, nft, f0, waterlevel=None):
        calls.append(('gauss', nft, dt, f0))
        E.prove('filters', waterlevel is None or bool(lift(waterlevel) <= -40))
        return filt('gauss', nft)

    def _phase_shift_filter(nft, dt, tshift):
        calls.append(('shift', nft, dt, tshift))
        return filt('shift', nft)
    frozen = [core.freeze(a) for a in rsp + [src]]
    comps = [Component(E, r, frozen[-1], sr, lambda n: filt('gauss', n), lambda n: filt('shift', n), itmax, minderr,
                       tshift, mute) for r in frozen[:-1]]
    mod._gauss_filter, mod._phase_shift_filter = _gauss_filter, _phase_shift_filter
    loop = Loop(E, comps, norm)
    E.while_specs = {'rf.deconvolve.deconv_iterative:0': loop}
    out, its, rms = mod.deconv_iterative(DList(rsp), src, sr, **kw)
    need(len(loop.states) == n, 'one loop per response')
    E.prove('filters', AND(*[AND(veq(c[2], comps[0].dt), veq(c[3], f0 if c[0] == 'gauss' else tshift)) for c in calls]))
    E.prove('reported', AND(len(out) == n, len(its) == n, len(rms) == n))
    k = E.int('k', 0)
    raw = [st['raw'] for st in loop.states]
    factor = lift(1)
    if norm is not None:
        factor = div(1, loop.states[norm]['top'])
    for i, st in enumerate(loop.states):
        c = st['comp']
        E.prove('stopped', OR(abs(st['err']) <= c.minderr, st['it'] >= c.itmax))
        E.prove('limit', st['it'] <= c.itmax)
        E.prove('reported', AND(veq(its[i], st['it']), veq(rms[i].shape[0], c.itmax)))
        j = E.int('j%d' % i, 0)
        E.assume(z3.And(j.t < c.itmax.t))
        E.prove('reported', veq(rms[i].at(j), st['rms'].at(j)))
        E.prove('length', veq(out[i].shape[0], c.M))
        E.prove('result', IMPLIES(k < c.M, veq(out[i].at(k), raw[i].at(k) * factor)))
    E.prove('inputs', AND(*[core.arr_eq(a, b) for a, b in zip(rsp + [src], frozen)]))
    E.cover('end')
    if n > 1:
        E.cover('several')
