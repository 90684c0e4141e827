"""C19: profile boxes tile the profile line without gaps."""
import numpy as np
from rt.base import *


def direct(ll, az, km):
    from geographiclib.geodesic import Geodesic
    r = Geodesic.WGS84.Direct(ll[0], ll[1], az, km * 1000)
    return r['lat2'], r['lon2']


def inverse(a, b):
    from geographiclib.geodesic import Geodesic
    r = Geodesic.WGS84.Inverse(a[0], a[1], b[0], b[1])
    return r['s12'] / 1000, r['azi1']


def angdiff(a, b):
    return (a - b + 180) % 360 - 180


def bins_(rng):
    k = int(rng.randint(2, 9))
    start = pick(rng, [0., 0., rng.uniform(-50, 100), -20.])
    step = rng.uniform(2, 60, k - 1) if rng.rand() < .6 else np.ones(k - 1) * pick(rng, [5., 10., 25.])
    b = start + np.hstack([[0.], np.cumsum(step)])
    return b


@case(150, 2500)
def boxes(rng, note):
    """boxes of random profiles against geodesic distances measured back"""
    from rf.profile import get_profile_boxes
    ll = (rng.uniform(-60, 60), rng.uniform(-150, 150))
    az = pick(rng, [rng.uniform(0, 360), 0., 90., 270., rng.uniform(-180, 0), 45.])
    b = bins_(rng)
    conv = pick(rng, [lambda x: x, list, tuple])
    kw = {} if rng.rand() < .2 else {'width': pick(rng, [rng.uniform(10, 500), 100., 1000])}
    w = kw.get('width', 2000)
    note.update(latlon=repr(ll), azimuth=az, bins=repr(b), width=w)
    r = get_profile_boxes(ll, az, conv(b), **kw)
    need(len(r) == len(b) - 1, '%d boxes for %d bins', len(r), len(b) - 1)
    for i, box in enumerate(r):
        need(abs(box['length'] - (b[i + 1] - b[i])) < 1e-9, 'box %d: length %r', i, box['length'])
        need(abs(box['pos'] - (b[i + 1] + b[i]) / 2) < 1e-9, 'box %d: pos %r', i, box['pos'])
        # the midpoint lies on the profile line at distance pos
        want = direct(ll, az, box['pos'])
        d, _ = inverse(want, box['latlon'])
        # midpoint is reached with the constant start azimuth from the box start: tolerance for the azimuth drift
        s = direct(ll, az, b[i])
        d2, a2 = inverse(s, box['latlon'])
        need(abs(d2 - (b[i + 1] - b[i]) / 2) < 1e-6 * (1 + d2), 'box %d: midpoint %s km from box start', i, d2)
        need(abs(angdiff(a2, az)) < 1e-4, 'box %d: direction of midpoint %s', i, a2)
        drift = abs(b[i + 1] - b[i]) * abs(b[i]) / 6371 * 4 + 1e-3
        need(d < drift, 'box %d: midpoint is %s km from the profile line point', i, d)
        # corners: half the width to the left and right of the profile line at the bin edges
        c = list(box['poly'].exterior.coords)
        need(len(c) == 5 and c[0] == c[-1], 'box %d: %d corners', i, len(c))
        c = [(y, x) for x, y in c[:4]]
        d, a = inverse(s, c[0])
        need(abs(d - w / 2) < 1e-6 * (1 + w), 'box %d: first corner %s km beside the line', i, d)
        need(abs(angdiff(a, az - 90)) < 1e-4, 'box %d: first corner in direction %s', i, a)
        d, a = inverse(c[0], c[1])
        need(abs(d - box['length']) < 1e-6 * (1 + d) and abs(angdiff(a, az)) < 1e-4, 'box %d: second corner', i)
        d, a = inverse(c[1], c[2])
        need(abs(d - w) < 1e-6 * (1 + d) and abs(angdiff(a, az + 90)) < 1e-4, 'box %d: third corner', i)
        d, a = inverse(c[2], c[3])
        need(abs(d - box['length']) < 1e-6 * (1 + d) and abs(angdiff(a, az + 180)) < 1e-4, 'box %d: fourth corner', i)
        if i:
            need('profile' not in box, 'box %d describes the profile', i)
    p = r[0]['profile']
    need(tuple(p['latlon']) == ll and p['azimuth'] == az and p['width'] == w, 'profile %r', p)
    need(abs(p['length'] - (b[-1] - b[0])) < 1e-9, 'profile length %r', p['length'])


@case(40, 600)
def tiling(rng, note):
    """a point between two bin edges near the line lies in the box of this bin and in no other"""
    from rf.profile import get_profile_boxes, _find_box
    ll = (rng.uniform(-50, 50), rng.uniform(-120, 120))
    az = rng.uniform(0, 360)
    b = bins_(rng)
    r = get_profile_boxes(ll, az, b, width=pick(rng, [40., 60., 100.]))  # long edges are not geodesics
    i = rng.randint(len(b) - 1)
    f = rng.uniform(.25, .75)
    x = b[i] + f * (b[i + 1] - b[i])
    side = rng.uniform(-10, 10)
    note.update(latlon=repr(ll), azimuth=az, bins=repr(b), x=x, side=side)
    p = direct(direct(ll, az, b[i]), az, x - b[i])
    p = direct(p, az + 90, side)
    from shapely.geometry import Point
    inside = [k for k, box in enumerate(r) if Point(p[1], p[0]).within(box['poly'])]
    box = _find_box(p, r)
    need(box is r[i], 'point at %s km is in box %s instead of %d (lonlat polygons: %s)', x,
         None if box is None else [k for k in range(len(r)) if r[k] is box], i, inside)


@case(5, 10)
def single(rng, note):
    """two bin edges: one box"""
    from rf.profile import get_profile_boxes
    a, l = rng.uniform(-10, 10), rng.uniform(5, 50)
    r = get_profile_boxes((10., 20.), 30., (a, a + l))
    note.update(start=a, length=l)
    need(len(r) == 1 and abs(r[0]['pos'] - a - l / 2) < 1e-9 and 'profile' in r[0], 'single box %r', r)
