"""C17: piercing points lie at the ray's horizontal offset along the back azimuth."""
import numpy as np
from rt.base import *
from rt.c14 import model_file, iasp

DEG = 111.2
KEY = 'C17-offset-one-layer'
KMSG = ('SimpleModel.ppoint_distance assigns the offset accumulated down to the bottom of each layer to the top of '
        'this layer, so that every piercing point is one layer too far (e.g. %.3f km instead of %.3f km at depth %.2f '
        'km, slowness %.2f)')


def contributions(layers, p, phase):
    z, dz, vp, vs = layers
    with np.errstate(invalid='ignore', divide='ignore'):
        cp = dz * p / DEG / np.sqrt(1 / vp ** 2 - (p / DEG) ** 2)
        cs = dz * p / DEG / np.sqrt(1 / vs ** 2 - (p / DEG) ** 2)
    return sum({'P': cp, 'S': cs}[c] for c in phase.upper())


def offset(layers, depth, p, phase):
    """exact accumulated offset: layers above, linear within the layer"""
    z, dz = layers[:2]
    c = contributions(layers, p, phase)
    x = 0.
    for k in range(len(z)):
        if z[k] + dz[k] <= depth:
            x += c[k]
        elif z[k] < depth:
            x += c[k] * (depth - z[k]) / dz[k]
    return x


def off_by_one(layers, depth, p, phase):
    z = layers[0]
    x = np.cumsum(contributions(layers, p, phase))
    i = [k for k in range(len(z)) if z[k] <= depth][-1]
    return x[i] + (x[i + 1] - x[i]) * (depth - z[i]) / (z[i + 1] - z[i])


def judge(got, layers, depth, p, phase, what, tol=1e-7):
    """-> message of the known finding or None"""
    want = offset(layers, depth, p, phase)
    if abs(got - want) <= tol * (1 + abs(want)):
        return None
    known = off_by_one(layers, depth, p, phase)
    if abs(got - known) <= tol * (1 + abs(known)):
        return KMSG % (got, want, depth, p)
    need(False, '%s: offset %s km instead of %s km (depth %s, slowness %s, phase %s)', what, got, want, depth, p, phase)


def rand_phase(rng):
    return pick(rng, ['P', 'S', 'P', 'S', 'p', 's', 'PPP', 'PPS', 'PSS', 'SSS', 'pPs', 'SPS', 'PPPPS'])


def rand_depth(rng, z):
    k = rng.randint(len(z) - 1)
    return pick(rng, [0., float(z[k]), rng.uniform(0, z[-1] * .999), 50., rng.uniform(0, min(100, z[-1] * .99))])


@case(100, 2500)
def distance(rng, note):
    """ppoint_distance of random models against the explicit sum"""
    import rf.simple_model as sm
    if rng.rand() < .3:
        layers, m = iasp(), sm.load_model()
    else:
        k = int(rng.randint(3, 12))
        z = np.hstack([[0.], np.cumsum(rng.uniform(1, 40, k))])
        vp = np.sort(rng.uniform(4.5, 9, k + 1))
        vs = vp / rng.uniform(1.6, 1.9)
        m = sm.SimpleModel(z, vp, vs)
        layers = (z[:-1], np.diff(z), vp[:-1], vs[:-1])
    p, ph = rng.uniform(0, 9), rand_phase(rng)
    d = rand_depth(rng, layers[0])
    note.update(layers=len(layers[0]), depth=d, slowness=p, phase=ph)
    if not np.isfinite(contributions(layers, p, ph)).all() or d >= layers[0][-1]:
        raise Skip()
    msg = judge(m.ppoint_distance(d, p, phase=ph), layers, d, p, ph, 'ppoint_distance')
    if msg:
        raise Known(KEY, msg)


@case(10, 100)
def even(rng, note):
    """a phase of even length raises ValueError"""
    import rf.simple_model as sm
    ph = pick(rng, ['PS', 'Ps', 'PPSS', 'SP', 'PPPS', 'ps'])
    note['phase'] = ph
    raises(ValueError, sm.load_model().ppoint_distance, rng.uniform(1, 100), 6., phase=ph)


def locate(lat, lon, az, km):
    from geographiclib.geodesic import Geodesic
    r = Geodesic.WGS84.Direct(lat, lon, az, km * 1000)
    return r['lat2'], r['lon2']


def measured(st, pp):
    """offset and azimuth from station to piercing point"""
    from geographiclib.geodesic import Geodesic
    r = Geodesic.WGS84.Inverse(st['station_latitude'], st['station_longitude'], pp[0], pp[1])
    return r['s12'] / 1000, r['azi1']


def check_point(st, pp, layers, depth, phase, what):
    d, az = measured(st, pp)
    known = judge(d, layers, depth, st['slowness'], phase, what, 1e-6)
    if d > 0.01:
        x = (az - st['back_azimuth'] + 180) % 360 - 180
        need(abs(x) < 1e-4 + 1e-6 / d, '%s: azimuth %s instead of back azimuth %s', what, az, st['back_azimuth'])
    return known


@case(40, 800)
def ppoints(rng, note):
    """ppoints of a stream: headers of each trace, order of the stream, nothing else changed"""
    from rf import RFStream
    method = pick(rng, 'PS')
    with scratch() as dr:
        if rng.rand() < .5:
            name, layers = model_file(rng, dr, vmax=8.)
        else:
            name, layers = 'iasp91', iasp()
        traces = []
        for i in range(1 + rng.randint(5)):
            tr = group(rng, pick(rng, 'QLT'), n=20, sta='S%d' % i)[0]
            tr.stats.phase = method
            tr.stats.slowness = rng.uniform(0.5, 8)
            if rng.rand() < .2:
                tr.stats.pp_depth, tr.stats.pp_latitude, tr.stats.pp_longitude = 1., 2., 3.
            traces.append(tr)
        d = rand_depth(rng, layers[0])
        d = min(d, 300.)
        ph = rand_phase(rng)
        kw = {'pp_phase': ph, 'model': name}
        if name == 'iasp91' and rng.rand() < .5:
            del kw['model']
        if rng.rand() < .4:
            ph = {'P': 'S', 'S': 'P'}[method]
            kw.pop('pp_phase')
        note.update(n=len(traces), depth=d, phase=ph, model=name, kw=repr(sorted(kw)), lat=traces[0].stats.station_latitude)
        if d >= layers[0][-1]:
            raise Skip()
        keep = [snap(t, ('pp_depth', 'pp_latitude', 'pp_longitude')) for t in traces]
        s = RFStream(list(traces))
        r = np.asarray(s.ppoints(d, **kw))
    need(r.shape == (len(traces), 2), 'shape %s', r.shape)
    need([id(t) for t in s] == [id(t) for t in traces], 'stream changed')
    known = None
    for i, t in enumerate(traces):
        same_snap(keep[i], snap(t, ('pp_depth', 'pp_latitude', 'pp_longitude')), 'trace %d' % i)
        need(t.stats.pp_depth == d, 'pp_depth %r', t.stats.pp_depth)
        need(t.stats.pp_latitude == r[i, 0] and t.stats.pp_longitude == r[i, 1], 'returned point %d is not that of trace %d', i, i)
        known = check_point(t.stats, r[i], layers, d, ph, 'piercing point of trace %d' % i) or known
    if known:
        raise Known(KEY, known)


@case(12, 200)
def stats_and_rfstats(rng, note):
    """ppoint of a dictionary; rfstats with pp_depth"""
    import rf.simple_model as sm
    from rf.rfstream import rfstats
    from obspy.core import AttribDict
    layers = iasp()
    d = rng.uniform(1, 300)
    if rng.rand() < .6:
        ph = rand_phase(rng)
        st = {'slowness': rng.uniform(1, 8), 'back_azimuth': rng.uniform(0, 360),
              'station_latitude': rng.uniform(-85, 85), 'station_longitude': rng.uniform(-180, 180)}
        if rng.rand() < .5:
            st = AttribDict(st)
        r = sm.load_model().ppoint(st, d, phase=ph)
    else:
        phase = pick(rng, 'PS')
        lat, lon, az = rng.uniform(-60, 60), rng.uniform(-180, 180), rng.uniform(0, 360)
        ev = locate(lat, lon, az, rng.uniform(55, 80) * DEG)
        st = AttribDict({'station_latitude': lat, 'station_longitude': lon, 'station_elevation': 10.,
                         'event_latitude': ev[0], 'event_longitude': ev[1], 'event_depth': rng.uniform(0, 300),
                         'event_time': rand_time(rng)})
        kw = {}
        ph = 'S' if phase == 'P' else 'P'
        if rng.rand() < .5:
            kw['pp_phase'] = ph = pick(rng, 'PS')
        d = rng.uniform(1, 100)
        st = rfstats(st, phase=phase, pp_depth=d, **kw)
        r = st.pp_latitude, st.pp_longitude
    note.update(depth=d, phase=ph, slowness=st['slowness'])
    need(st['pp_depth'] == d and (st['pp_latitude'], st['pp_longitude']) == tuple(r), 'headers %r', st)
    known = check_point(st, r, layers, d, ph, 'piercing point')
    if known:
        raise Known(KEY, known)
