"""C16: delay times (rf.simple_model.SimpleModel.calculate_vertical_slowness, calculate_delay_times,
stretch_delay_times)"""
import z3
from dv.contract import registry, need
from dv.core import SArr, SNum, SBool, SPhase, veq, AND, OR, NOT, IMPLIES, lift, ite, zb
from dv import core, stubs

CONTRACTS, contract = registry()
D = 'assumes a continuous, positive velocity at every support point'


def layered(E, load, base=''):
    """a model object with N arbitrary layers"""
    mod = load('rf.simple_model')
    N = E.int('N' + base, 1)
    m = object.__new__(mod.SimpleModel)
    vp, vs = SArr.symbolic('vp' + base, N), SArr.symbolic('vs' + base, N)

    def positive(a):
        at = a.at

        def fn(i):
            v = at(i)
            E.assume(v.t > 0)
            return v
        return SArr((N,), fn, 'f')
    m.vp, m.vs = positive(vp), positive(vs)
    m.z, m.dz = SArr.symbolic('z' + base, N), SArr.symbolic('dz' + base, N)
    m.t_ref = core.DDict()
    return m, N


KM = SNum(z3.Q(1112, 10))


def vslow(v, p):
    """sqrt(1/v^2 - (p / 111.2)^2), NaN if the ray does not reach this depth"""
    h = p / KM
    return core.sqrt(SNum._div(lift(1), v * v, False) - h * h)


def delay(E, m, N, p, ph):
    """the defining formula, summed over the layers above"""
    def term(i):
        qp, qs = vslow(m.vp.at(i), p), vslow(m.vs.at(i), p)
        nP, nS = ph.numP(), ph.numS()
        # legs which are not named do not contribute (even if their slowness is not defined)
        tp = ite((nP > 0).t, nP * qp, SNum(z3.RealVal(0)))
        ts = ite((nS > 0).t, nS * qs, SNum(z3.RealVal(0)))
        direct = ite(ph.firstP.t, qp, qs)
        return (tp + ts - 2 * direct) * m.dz.at(i)
    return stubs.np_cumsum(SArr((N,), term, 'f'))


def prove_sum(E, name, r, spec, k):
    """two running sums are equal if their summands are"""
    need(getattr(r, 'summands', None) is not None, 'result is no running sum')
    E.prove(name, veq(r.summands.at(k), spec.summands.at(k)))


@contract('rf.simple_model.SimpleModel.calculate_vertical_slowness', expect=['P', 'S', 'length'], cover=['end'])
def vertical(E, load):
    """vertical slowness of the named legs is sqrt(1/v^2 - (p/111.2)^2) at every depth"""
    m, N = layered(E, load)
    p = E.real('p')
    ph = SPhase('phase')
    qp, qs = m.calculate_vertical_slowness(p, phase=ph)
    k = E.int('k', 0)
    E.assume(k.t < N.t)
    for nm, q, v, n in (('P', qp, m.vp, ph.numP()), ('S', qs, m.vs, ph.numS())):
        if n > 0:
            need(isinstance(q, SArr), 'vertical slowness is no array')
            E.prove(nm, veq(q.at(k), vslow(v.at(k), p)))
            E.prove('length', veq(q.shape[0], N))
    E.cover('end')


@contract('rf.simple_model.SimpleModel.calculate_delay_times', expect=['delay', 'length'], cover=['end'])
def delays(E, load):
    """delay times at depth k: sum over layers 0..k of dz (#P qp + #S qs - 2 q_direct), case-insensitive"""
    m, N = layered(E, load)
    p = E.real('p')
    ph = SPhase('phase')
    r = m.calculate_delay_times(p, phase=ph)
    need(isinstance(r, SArr) and r.ndim == 1, 'no array')
    k = E.int('k', 0)
    E.assume(k.t < N.t)
    E.prove('length', veq(r.shape[0], N))
    prove_sum(E, 'delay', r, delay(E, m, N, p, ph), k)
    E.cover('end')


def assumed_delays(E, m, N):
    """calculate_delay_times replaced by its contract (proved above): a function of slowness and upper-case phase
    name giving an array of N values; NaN below the turning point (once NaN, NaN at all greater depths)"""
    calls = []
    kinds = []

    def D(p, ph):
        need(isinstance(ph, SPhase), 'phase')
        p = lift(p)
        for q_, ph_, a in kinds:
            if core.holds(ph_.key == ph.key) and bool(q_ == p):
                return a
        f = z3.Function(E.name('D'), z3.IntSort(), z3.RealSort())
        last = E.int('reach', 1)          # first depth the ray does not reach
        a = SArr((N,), lambda i: SNum(f(core.int_t(i)), core.int_t(i) >= last.t), 'f')
        kinds.append((p, ph, a))
        return a

    def f(slowness, phase='PS'):
        calls.append(slowness)
        return D(slowness, phase)
    object.__setattr__(m, 'calculate_delay_times', f)
    return D, calls


@contract('rf.simple_model.SimpleModel.stretch_delay_times',
          expect=['original', 'reference', 'equal-length', 'mirrored', 'odd', 'reach', 'reached'], cover=['end', 'again'],
          assumptions=['stretch_delay_times: calculate_delay_times enters by its contract; NaN values of a delay table '
                       'extend to the bottom (the ray does not come back)'])
def stretch(E, load):
    """stretch_delay_times: ValueError for names of odd length; otherwise delays of the slowness and of the reference
    at the same depths, at most up to the last depth both rays reach, continued antisymmetrically by up to 9 samples
    for times before the onset; reversed sign for S waves; the reference table may come from an earlier call"""
    m, N = layered(E, load)
    D, calls = assumed_delays(E, m, N)
    p, ref = E.real('p'), E.real('ref')
    ph = SPhase('phase')
    odd = ph.length() % 2 == 1
    again = E.choose(2)
    if again:
        # an earlier call with any slowness, reference slowness and phase
        ph0 = ph
        if E.choose(2):
            ph0 = SPhase('earlier')
            E.assume(ph0.key.t != ph.key.t)
        try:
            m.stretch_delay_times(E.real('p0'), ph0, E.real('ref0'))
        except ValueError:
            raise core.PathEnd()
    try:
        t, t_ref = m.stretch_delay_times(p, phase=ph, ref=ref)
    except ValueError:
        E.prove('odd', odd)
        return
    need(len(calls) >= 2, 'calculate_delay_times is not called')
    E.prove('odd', NOT(odd))
    full, full_ref = D(p, ph), D(ref, ph)
    E.prove('equal-length', veq(t.shape[0], t_ref.shape[0]))
    sign = ite(ph.firstP.t, SNum(z3.RealVal(1)), SNum(z3.RealVal(-1)))
    # number of mirrored samples M = min(9, L - 1) with L depths in the table: len = L + M
    n = lift(t.shape[0])
    L = E.int('L', 0)
    M = SNum(z3.If(L.t > 9, z3.IntVal(9), z3.If(L.t >= 1, L.t - 1, z3.IntVal(0))))
    E.assume(n.t == L.t + M.t)
    # which depths: all if both rays reach the bottom, otherwise none which is not reached, at most one reached is missing
    stubs.forall_at(L - 1)
    nan = lambda i: OR(SBool(lift(full.at(i)).nan), SBool(lift(full_ref.at(i)).nan))
    E.prove('reach', OR(L == 0, NOT(nan(L - 1))))
    E.prove('reached', OR(L >= N, nan(L), nan(L + 1)))
    k = E.int('k', 0)
    E.assume(k.t < L.t)
    for nm, a, f in (('original', t, full), ('reference', t_ref, full_ref)):
        E.prove(nm, veq(a.at(k + M), sign * f.at(k)))
    E.cover('again' if again else 'end')
    j = E.int('j', 1)
    E.assume(j.t <= M.t)
    for nm, a, f in (('mirrored', t, full), ('mirrored', t_ref, full_ref)):
        E.prove(nm, veq(a.at(M - j), -sign * f.at(j)))
