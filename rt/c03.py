"""C03: ray headers are the geometry and first arrival of the event-station pair."""
import numpy as np
from rt.base import *


def geometry(rng, lo=30, hi=90):
    """Event and station with an epicentral distance (in degrees of 111.2 km) roughly inside [lo, hi]."""
    from geographiclib.geodesic import Geodesic
    la, lo_ = rng.uniform(-70, 70), rng.uniform(-180, 180)
    d = rng.uniform(lo, hi)
    az = rng.uniform(0, 360)
    g = Geodesic.WGS84.Direct(la, lo_, az, d * 111200)
    return (la, lo_), (g['lat2'], g['lon2'])


def make_event(rng, latlon, depth_km, t, mag, note=None, kind=None):
    """Event whose relevant origin/magnitude is preferred or first of several."""
    from obspy.core.event import Event, Origin, Magnitude, ResourceIdentifier
    kind = kind or pick(rng, ['first', 'preferred', 'single'])
    o = Origin(latitude=latlon[0], longitude=latlon[1], depth=depth_km * 1000, time=t)
    m = Magnitude(mag=mag)
    wrong_o = Origin(latitude=-latlon[0], longitude=latlon[1] / 2, depth=1000, time=t + 100)
    wrong_m = Magnitude(mag=1.)
    ev = Event(resource_id=ResourceIdentifier('smi:local/ev%d' % rng.randint(10 ** 6)))
    if kind == 'single':
        ev.origins, ev.magnitudes = [o], [m]
    elif kind == 'first':
        ev.origins, ev.magnitudes = [o, wrong_o], [m, wrong_m]
    else:
        ev.origins, ev.magnitudes = [wrong_o, o], [wrong_m, m]
        ev.preferred_origin_id = o.resource_id
        ev.preferred_magnitude_id = m.resource_id
    if note is not None:
        note['origins'] = kind
    return ev


def expected(ev_ll, depth, t, sta_ll, phase, tt_model='iasp91'):
    from obspy.geodetics import gps2dist_azimuth
    from obspy.taup import TauPyModel
    d, baz, _ = gps2dist_azimuth(sta_ll[0], sta_ll[1], ev_ll[0], ev_ll[1])
    dist = d / 1000 / 111.2
    arr = TauPyModel(tt_model).get_travel_times(depth, dist, (phase,))
    if not arr:
        return dist, baz, None
    return dist, baz, arr[0]


def check(st, ev_ll, depth, t, mag, sta_ll, elev, phase, tt_model='iasp91', what=''):
    dist, baz, a = expected(ev_ll, depth, t, sta_ll, phase, tt_model)
    need(a is not None, 'no arrival')
    want = {'station_latitude': sta_ll[0], 'station_longitude': sta_ll[1], 'station_elevation': elev,
            'event_latitude': ev_ll[0], 'event_longitude': ev_ll[1], 'event_depth': depth,
            'event_magnitude': mag, 'distance': dist, 'back_azimuth': baz,
            'inclination': a.incident_angle, 'slowness': a.ray_param_sec_degree}
    for k, v in want.items():
        if v is None:
            continue
        need(k in st, '%sheader %s missing', what, k)
        need_close(float(st[k]), float(v), what + k, rtol=1e-9)
    need(abs(st['event_time'] - t) < 1e-6, '%sevent_time %s instead of %s', what, st['event_time'], t)
    need(abs(st['onset'] - (t + a.time)) < 1e-5, '%sonset %s instead of %s', what, st['onset'], t + a.time)
    need(st['phase'] == phase, '%sphase %r instead of %r', what, st['phase'], phase)


PH = [('P', 30, 90), ('P', 32, 88), ('S', 50, 85), ('S', 51, 84), ('PP', 60, 160), ('p', 1, 5), ('SKS', 90, 130),
      ('PKP', 145, 170), ('P', 10, 25), ('P', 20, 28)]


def setup(rng, note):
    phase, lo, hi = pick(rng, PH)
    ev_ll, sta_ll = geometry(rng, lo, hi)
    depth = pick(rng, [0., 10., 33.3, 100., 410., 600., round(rng.uniform(0, 650), 2)])
    if phase == 'p':
        depth = 400.
    t = rand_time(rng)
    mag = pick(rng, [0., 5.5, round(rng.uniform(-1, 9), 1)])
    elev = pick(rng, [0., -30., 1234.5])
    note.update(phase=phase, event=ev_ll, depth=depth, time=str(t), mag=mag, station=sta_ll, elev=elev)
    return phase, ev_ll, sta_ll, depth, t, mag, elev


@case(25, 400)
def pair(rng, note):
    """event and station objects, each alone with the other in existing headers, or both in headers"""
    from obspy.core import AttribDict
    from obspy.core.trace import Stats
    from rf import rfstats
    phase, ev_ll, sta_ll, depth, t, mag, elev = setup(rng, note)
    model = pick(rng, ['iasp91', 'iasp91', 'ak135'])
    ev = make_event(rng, ev_ll, depth, t, mag, note)
    sta = {'latitude': sta_ll[0], 'longitude': sta_ll[1], 'elevation': elev}
    how = pick(rng, ['both', 'both', 'event', 'station', 'none', 'override'])
    note.update(given=how, tt_model=model)
    evh = {'event_latitude': ev_ll[0], 'event_longitude': ev_ll[1], 'event_depth': depth, 'event_time': t,
           'event_magnitude': mag}
    sth = {'station_latitude': sta_ll[0], 'station_longitude': sta_ll[1], 'station_elevation': elev}
    obj = None
    cls = pick(rng, [AttribDict, Stats])
    kw = dict(phase=phase, dist_range=None, tt_model=model)
    if expected(ev_ll, depth, t, sta_ll, phase, model)[2] is None:
        raises(Exception, rfstats, event=ev, station=sta, **kw)
        return
    if how == 'both':
        if rng.rand() < 0.5:
            obj = cls({'foo': 42})
        kw.update(event=ev, station=sta)
    elif how == 'event':
        obj = cls(dict(sth, foo=42))
        kw['event'] = ev
    elif how == 'station':
        obj = cls(dict(evh, foo=42))
        kw['station'] = sta
    elif how == 'none':
        obj = cls(dict(evh, **dict(sth, foo=42)))
    else:
        obj = cls(dict({k: 1. for k in sth}, **{'event_latitude': 2., 'event_longitude': 3., 'event_depth': 1.,
                       'event_time': t + 5, 'event_magnitude': 1., 'foo': 42, 'distance': 1., 'slowness': 1.}))
        kw.update(event=ev, station=sta)
    with quiet():
        r = rfstats(obj, **kw)
    need(r is not None, 'no headers returned')
    check(r, ev_ll, depth, t, mag, sta_ll, elev, phase, model)
    if obj is not None:
        need(r is obj, 'the given headers object is not the one updated')
        need(obj.foo == 42, 'other header changed')
    if how in ('both', 'event', 'override'):
        need(str(r['event_id']) == str(ev.resource_id), 'event_id %r', r['event_id'])


@case(16, 150)
def stream_headers(rng, note):
    """applied to a stream whose traces belong to different pairs: each trace its own headers"""
    from obspy import Stream
    from rf import rfstats, RFStream
    from rf.rfstream import RFTrace
    phase, lo, hi = pick(rng, [('P', 32, 88), ('S', 52, 83)])
    recs, traces = [], []
    for i in range(1 + rng.randint(4)):
        ev_ll, sta_ll = geometry(rng, lo, hi)
        depth, t, mag = rng.uniform(0, 300), rand_time(rng), 6.
        h = rand_header(rng, start=t)
        h.update({'event_latitude': ev_ll[0], 'event_longitude': ev_ll[1], 'event_depth': depth, 'event_time': t,
                  'event_magnitude': mag, 'station_latitude': sta_ll[0], 'station_longitude': sta_ll[1],
                  'station_elevation': 10.})
        traces.append(RFTrace(data=rand_data(rng, 5), header=h))
        recs.append((ev_ll, depth, t, mag, sta_ll, 10.))
    st = RFStream(traces)
    note.update(phase=phase, n=len(st))
    with quiet():
        r = rfstats(st, phase=phase)
    need(len(r) == len(recs), '%d traces instead of %d', len(r), len(recs))
    for tr, rec in zip(r, recs):
        check(tr.stats, *rec, phase=phase, what='trace: ')


@case(10, 80)
def piercing(rng, note):
    """pp_depth stores the piercing point of the converted phase"""
    from rf import rfstats
    from rf.simple_model import load_model
    phase, lo, hi = pick(rng, [('P', 32, 88), ('S', 52, 83)])
    ev_ll, sta_ll = geometry(rng, lo, hi)
    ev = make_event(rng, ev_ll, 50., rand_time(rng), 6.)
    dep = pick(rng, [30, 50., 100.])
    pp = pick(rng, [None, 'P', 'S'])
    note.update(phase=phase, event=ev_ll, station=sta_ll, depth=dep, pp_phase=pp)
    with quiet():
        r = rfstats(event=ev, station={'latitude': sta_ll[0], 'longitude': sta_ll[1], 'elevation': 0.},
                    phase=phase, dist_range=None, pp_depth=dep, pp_phase=pp)
    s = {k: r[k] for k in ('slowness', 'back_azimuth', 'station_latitude', 'station_longitude')}
    la, lon = load_model().ppoint(s, dep, phase=pp or {'P': 'S', 'S': 'P'}[phase])
    need(r.pp_depth == dep, 'pp_depth')
    need_close([r.pp_latitude, r.pp_longitude], [la, lon], 'piercing point')


@case(16, 100)
def incomplete(rng, note):
    """missing origin, origin attribute, magnitude or phase raises an error"""
    from obspy.core.event import Event
    from rf import rfstats
    phase, ev_ll, sta_ll, depth, t, mag, elev = setup(rng, note)
    ev = make_event(rng, ev_ll, depth, t, mag, kind='single')
    sta = {'latitude': sta_ll[0], 'longitude': sta_ll[1], 'elevation': elev}
    what = pick(rng, ['origins', 'latitude', 'longitude', 'depth', 'time', 'magnitudes', 'phase', 'nostation'])
    note['missing'] = what
    exc = Exception
    if what in ('origins', 'magnitudes'):
        setattr(ev, what, [])
        exc = ValueError
    elif what in ('latitude', 'longitude', 'depth', 'time'):
        setattr(ev.origins[0], what, None)
        exc = ValueError
    elif what == 'phase':
        phase = pick(rng, ['PKIKP' if not 115 < expected(ev_ll, depth, t, sta_ll, 'P')[0] else 'P', 'SKKSdfP'])
        if what == 'phase' and expected(ev_ll, depth, t, sta_ll, 'P')[0] > 50 and phase == 'PKIKP':
            raise Skip()
    elif what == 'nostation':
        sta = None
    with quiet():
        raises(exc, rfstats, event=ev, station=sta, phase=phase, dist_range=None)


@case(8, 40)
def zero_depth(rng, note):
    """zero valued attributes (equator, Greenwich, surface event) are values, not missing"""
    from rf import rfstats
    ev_ll = pick(rng, [(0., 40.), (10., 0.), (0., 0.)])
    sta_ll = {0: (0., 0.), 1: (50., 0.)}[rng.randint(2)]
    if abs(ev_ll[0] - sta_ll[0]) + abs(ev_ll[1] - sta_ll[1]) < 1:
        sta_ll = (0., 50.)
    t = rand_time(rng)
    note.update(event=ev_ll, station=sta_ll)
    ev = make_event(rng, ev_ll, 0., t, 0.)
    with quiet():
        r = rfstats(event=ev, station={'latitude': sta_ll[0], 'longitude': sta_ll[1], 'elevation': 0.},
                    dist_range=None)
    check(r, ev_ll, 0., t, 0., sta_ll, 0., 'P')
