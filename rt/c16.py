"""C16: delay times follow the layered-model travel time formula."""
import numpy as np
from rt.base import *

DEG = 111.2


def model(rng):
    import rf.simple_model as sm
    k = int(rng.randint(2, 12))
    z = np.hstack([[0.], np.cumsum(rng.uniform(0, 40, k) * (rng.rand(k) > .1))])
    vp = rng.uniform(4., 9, k + 1)
    vs = vp / rng.uniform(1.6, 1.9)
    if rng.rand() < .5:
        vp.sort(); vs.sort()
    n = None if rng.rand() < .5 else rng.randint(0, 4, k + 1)
    conv = pick(rng, [np.array, list])
    if n is not None:
        m = sm.SimpleModel(np.array(z), np.array(vp), np.array(vs), n)
    else:
        m = sm.SimpleModel(np.array(z), np.array(vp), np.array(vs))
    return m, (z, vp, vs, n)


def phase(rng, even=True):
    k = pick(rng, [2, 2, 4, 4, 6] if even else [1, 3, 5])
    return ''.join(pick(rng, 'PSps') for _ in range(k))


def spec(m, p, ph):
    """explicit loop over layers"""
    ph = ph.upper()
    out, t = [], 0.
    for k in range(len(m.z)):
        with np.errstate(invalid='ignore'):
            q = {'P': np.sqrt(1 / m.vp[k] ** 2 - (p / DEG) ** 2), 'S': np.sqrt(1 / m.vs[k] ** 2 - (p / DEG) ** 2)}
        x = 0.
        for c in ph:
            if c in q:
                x += q[c]
        x -= 2 * q[ph[0]]
        t = t + m.dz[k] * x
        out.append(t)
    return np.array(out)


@case(150, 3000)
def formula(rng, note):
    """delay times of random models, phases and slownesses against the explicit sum"""
    m, src = model(rng)
    p, ph = pick(rng, [6.4, rng.uniform(0, 9), rng.uniform(9, 25), 0.]), phase(rng)
    note.update(layers=len(m.z), slowness=p, phase=ph, seedz=float(src[0][-1]))
    got = m.calculate_delay_times(p, phase=ph)
    need_close(got, spec(m, p, ph), 'delay times of %s at slowness %s' % (ph, p), rtol=1e-9, atol=1e-9)


@case(60, 1000)
def vertical(rng, note):
    """vertical slowness sqrt(1/v^2-p^2), only where asked for"""
    m, src = model(rng)
    p = pick(rng, [6.4, rng.uniform(0, 9), rng.uniform(9, 20)])
    ph = pick(rng, ['P', 'S', 'PS', 'ps', 'p', 's', 'Ppps', None])
    note.update(slowness=p, phase=ph, seedz=float(src[0][-1]))
    qp, qs = m.calculate_vertical_slowness(p) if ph is None else m.calculate_vertical_slowness(p, phase=ph)
    with np.errstate(invalid='ignore'):
        wp, ws = np.sqrt(1 / m.vp ** 2 - (p / DEG) ** 2), np.sqrt(1 / m.vs ** 2 - (p / DEG) ** 2)
    up = (ph or 'PS').upper()
    if 'P' in up:
        need_close(qp, wp, 'vertical P slowness', rtol=1e-9)
    if 'S' in up:
        need_close(qs, ws, 'vertical S slowness', rtol=1e-9)


@case(80, 1500)
def stretch(rng, note):
    """original and reference delays of equal length at the same depths; odd names rejected"""
    m, src = model(rng)
    if len(m.z) < 3:
        raise Skip()
    p, ref = pick(rng, [6.4, rng.uniform(2, 9), rng.uniform(9, 22)]), pick(rng, [6.4, 5., 8., 12.])
    if rng.rand() < .2:
        raises(ValueError, m.stretch_delay_times, p, phase=phase(rng, False), ref=ref)
        return
    ph = phase(rng)
    note.update(slowness=p, ref=ref, phase=ph, seedz=float(src[0][-1]))
    w, wr = spec(m, p, ph), spec(m, ref, ph)
    if ph[0] in 'sS':
        w, wr = -w, -wr
    nan = np.nonzero(np.isnan(w) | np.isnan(wr))[0]
    if len(nan) and nan[0] < 2:
        raise Skip()
    a, b = m.stretch_delay_times(p, phase=ph, ref=ref)
    need(len(a) == len(b), 'lengths %d and %d', len(a), len(b))
    need(np.isfinite(a).all() and np.isfinite(b).all(), 'not finite')
    # negative branch mirrors the first depths, then one entry per depth
    k = len(a)
    for c in range(min(10, k)):
        npos = k - c
        if npos <= len(w) and c == len(w[:npos][1:10]) and close(a[c:], w[:npos], 1e-9, 1e-9) \
                and close(b[c:], wr[:npos], 1e-9, 1e-9) and close(a[:c], -w[1:c + 1][::-1], 1e-9, 1e-9) \
                and close(b[:c], -wr[1:c + 1][::-1], 1e-9, 1e-9):
            break
    else:
        need(False, 'delays are not those of the same depths')
    last = (nan[0] if len(nan) else len(w))
    need(npos >= last - 1, 'only %d of %d depths', npos, last)


@case(30, 300)
def case_insensitive(rng, note):
    """upper and lower case names give the same result"""
    m, src = model(rng)
    p, ph = rng.uniform(3, 8), phase(rng)
    note.update(slowness=p, phase=ph, seedz=float(src[0][-1]))
    for f in (m.calculate_delay_times, m.stretch_delay_times):
        ra = f(p, phase=ph.lower())
        rb = f(p, phase=ph.upper())
        need(np.array_equal(np.asarray(ra), np.asarray(rb), equal_nan=True), '%s depends on case', f.__name__)
