"""C04: event selection keeps exactly the traces inside the (closed) distance interval."""
import numpy as np
from rt.base import *
from rt.c03 import geometry, make_event, expected, check

DEF = {'P': (30, 90), 'S': (50, 85), 'p': (30, 90), 's': (50, 85)}


def dist_of(ev_ll, sta_ll):
    from obspy.geodetics import gps2dist_azimuth
    return gps2dist_azimuth(sta_ll[0], sta_ll[1], ev_ll[0], ev_ll[1])[0] / 1000 / 111.2


def rand_range(rng, d):
    k = rng.randint(9)
    up, dn = np.nextafter(d, 1e9), np.nextafter(d, -1e9)
    return [(d, d + 5), (d - 5, d), (d, d), (up, d + 5), (d - 5, dn), (d - 1, d + 1), (0, 180),
            (d + .01, d + 5), (d - 5, d - .01)][k]


@case(30, 300)
def single(rng, note):
    """one pair, explicit interval (also with the distance exactly on an end), list or tuple"""
    from rf import rfstats
    ev_ll, sta_ll = geometry(rng, 20, 95)
    t = rand_time(rng)
    ev = make_event(rng, ev_ll, 30., t, 6., kind='single')
    d = dist_of(ev_ll, sta_ll)
    r = rand_range(rng, d)
    note.update(event=ev_ll, station=sta_ll, distance=d, dist_range=r)
    if rng.rand() < 0.5:
        r = list(r)
    with quiet():
        s = rfstats(event=ev, station={'latitude': sta_ll[0], 'longitude': sta_ll[1], 'elevation': 0.},
                    dist_range=r, phase='P')
    inside = r[0] <= d <= r[1]
    need((s is not None) == inside, 'distance %r interval %r: %s', d, r, 'dropped' if inside else 'kept')
    if inside:
        check(s, ev_ll, 30., t, 6., sta_ll, 0., 'P')


@case(24, 200)
def default(rng, note):
    """default intervals of P and S; other phases without interval are rejected"""
    from rf import rfstats
    ph = pick(rng, ['P', 'S', 'P', 'S', 'P', 'S', 'PP', 'SKS', 'PS'])
    lo, hi = DEF.get(ph, (60, 80))
    e = pick(rng, [lo, hi])
    ev_ll, sta_ll = geometry(rng, e - 3, e + 3)
    if ph == 'S' and e == 85:
        ev_ll, sta_ll = geometry(rng, 83.5, 87)
    t = rand_time(rng)
    ev = make_event(rng, ev_ll, 30., t, 6., kind='single')
    d = dist_of(ev_ll, sta_ll)
    note.update(phase=ph, distance=d)
    kw = dict(event=ev, station={'latitude': sta_ll[0], 'longitude': sta_ll[1], 'elevation': 0.}, phase=ph)
    if ph not in DEF:
        raises(ValueError, rfstats, **kw)
        return
    with quiet():
        s = rfstats(**kw)
    need((s is not None) == (lo <= d <= hi), '%s at distance %r', ph, d)


@case(14, 120)
def select(rng, note):
    """stream of pairs inside and outside of the interval: order, samples and headers of the kept traces"""
    from obspy import Stream
    from rf import rfstats, RFStream
    from rf.rfstream import RFTrace
    phase = pick(rng, ['P', 'S'])
    lo, hi = DEF[phase]
    explicit = rng.rand() < 0.5
    recs, traces = [], []
    n = pick(rng, [0, 1, 2, 3, 5, 6])
    pairs = [geometry(rng, lo - 8, hi + 3) + (rand_time(rng),) for i in range(n)]
    if rng.rand() < .5:     # events recorded by several stations and stations with several events
        mixed = [(e, s, t) for e, _, t in pairs for _, s, _ in pairs if lo - 8 <= dist_of(e, s) <= hi + 3]
        pairs = [mixed[rng.randint(len(mixed))] for i in range(n + 2)] if mixed else pairs
    for ev_ll, sta_ll, t in pairs:
        h = rand_header(rng, start=t)
        h.update({'event_latitude': ev_ll[0], 'event_longitude': ev_ll[1], 'event_depth': 20., 'event_time': t,
                  'event_magnitude': 6., 'station_latitude': sta_ll[0], 'station_longitude': sta_ll[1],
                  'station_elevation': 10.})
        traces.append(RFTrace(data=rand_data(rng, 5), header=h))
        recs.append((ev_ll, 20., t, 6., sta_ll, 10.))
    kw = {}
    if explicit and n:
        d0 = dist_of(recs[-1][0], recs[-1][4])
        lo, hi = kw['dist_range'] = pick(rng, [(d0, hi), (lo, d0), (45, 60)])
    st = RFStream(traces)
    data = [t.data.copy() for t in traces]
    dist = [dist_of(r[0], r[4]) for r in recs]
    note.update(phase=phase, distances=dist, **kw)
    with quiet():
        r = rfstats(st, phase=phase, **kw)
    keep = [i for i, d in enumerate(dist) if lo <= d <= hi]
    need(r is st, 'another stream returned')
    need([traces.index(t) for t in r] == keep, 'kept traces %s instead of %s',
         [traces.index(t) for t in r], keep)
    for i in keep:
        need(np.array_equal(traces[i].data, data[i]), 'samples changed')
        check(traces[i].stats, *recs[i], phase=phase, what='trace %d: ' % i)
