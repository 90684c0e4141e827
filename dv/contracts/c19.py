"""C19: rf.profile.get_profile_boxes, _get_box, rf.util.direct_geodetic"""
import types
import z3
from dv.contracts.lib import *

CONTRACTS, contract = registry()
LIB = ['geographiclib Direct is a function of latitude, longitude, azimuth and distance in m; azimuths that differ by 360 '
       'degrees are the same direction', 'shapely Polygon keeps the given corners']


class Polygon(object):
    def __init__(self, corners):
        self.corners = [tuple(c) for c in corners]


def geometry(E):
    m = types.ModuleType('shapely.geometry')
    m.Polygon = Polygon
    top = types.ModuleType('shapely')
    top.geometry = m
    E.loader.stubs = dict(E.loader.stubs, shapely=top)
    E.loader.stubs['shapely.geometry'] = m


def go(p, azi, km):
    r = stubs.Geodesic.WGS84.Direct(p[0], p[1], azi, lift(km) * 1000)
    return r['lat2'], r['lon2']


def wrapped(a):
    return lift(a) % 360


def pt(a, b):
    return AND(len(a) == 2, veq(a[0], b[0]), veq(a[1], b[1]))


def describes(box, latlon0, az, b0, b1, width):
    """list of (name, condition)"""
    length = b1 - b0
    start = go(latlon0, az, b0)
    w = lift(width)
    c1 = go(start, wrapped(lift(az) - 90), w / 2)
    c2 = go(c1, az, length)
    c3 = go(c2, wrapped(lift(az) + 90), w)
    c4 = go(c3, wrapped(lift(az) + 180), length)
    poly = box['poly']
    out = [('length', veq(box['length'], length)), ('pos', veq(box['pos'], (b0 + b1) / 2)),
           ('middle', pt(box['latlon'], go(start, az, length / 2))), ('corners', len(poly.corners) == 4)]
    for c, want in zip(poly.corners, (c1, c2, c3, c4)):
        out.append(('corners', pt(c, want[::-1])))
    return out


@contract('rf.profile.get_profile_boxes', 'rf.profile._get_box', 'rf.util.direct_geodetic',
          expect=['count', 'order', 'length', 'pos', 'middle', 'corners', 'profile', 'returned'],
          cover=['first', 'later', 'few', 'default-width'], assumptions=LIB)
def boxes(E, load):
    """any number of bins: in every iteration exactly one box is added, the one of this bin; box r for arbitrary r is
    the box of bin r; only the first one describes the profile"""
    geometry(E)
    mod = load('rf.profile')
    ll, az = (E.real('lat0'), E.real('lon0')), E.real('azimuth')
    kw, width = {}, lift(2000)
    if E.choose(2):
        width = kw['width'] = E.real('width')
    else:
        E.cover('default-width')
    few = E.choose(5)
    if few:
        # short lists of edges
        bins = [E.real('b%d' % i) for i in range(few + 1)]
        r = mod.get_profile_boxes(ll, az, tuple(bins) if few % 2 else DList(bins), **kw)
        ps = parts_of(r)
        E.prove('count', len(ps) == few)
        for i, box in enumerate(ps):
            for n, c in describes(box, ll, az, bins[i], bins[i + 1], width):
                E.prove(n, c)
            E.prove('profile', profile_entry(box, ll, az, bins[-1] - bins[0], width) if i == 0 else 'profile' not in box)
        E.cover('few')
        return
    m = E.int('edges', 2)
    B = SArr.symbolic('bins', m)
    r = E.int('bin', 0)
    E.assume(r.t < m.t - 1)
    E.range_reps = [r]
    added = []

    def append_fresh(x):
        added.append(x)
        return lambda: None
    E.append_fresh = append_fresh

    def check(box, i):
        for n, c in describes(box, ll, az, B.at(i), B.at(i + 1), width):
            E.prove(n, c)
        first = i == 0
        if first:
            E.prove('profile', profile_entry(box, ll, az, B.at(m - 1) - B.at(0), width))
            E.cover('first')
        else:
            E.prove('profile', 'profile' not in box)
            E.cover('later')

    def iter_end(site, gap, x):
        if not hasattr(gap, 'interval'):
            return
        E.prove('count', len(added) == 1)
        check(added[0], getattr(gap, 'index', x))
    E.iter_end = [iter_end]
    res = mod.get_profile_boxes(ll, az, B, **kw)
    ps = parts_of(res)
    fixed = [p for p in ps if not isinstance(p, Gap)]
    E.prove('returned', isinstance(res, list))
    before = SBool(z3.BoolVal(False))
    need(len(fixed) >= 1, 'boxes')
    pos = lift(0)
    hit = []
    for p in ps:
        if isinstance(p, Gap):
            pos = pos + p.n
            continue
        # (in a list that a loop fills the position follows from 'count': one box in every iteration)
        filled = len(fixed) == 1 and all(x.base == 'app' for x in ps if isinstance(x, Gap))
        check(p, r if filled else pos)
        hit.append(True if filled else veq(pos, r))
        pos = pos + 1
    E.prove('order', OR(*hit))
    for p in ps:
        # boxes of a comprehension
        if isinstance(p, Gap) and getattr(p, 'at_index', None) is not None:
            i = E.int('other', 0)
            E.assume(z3.And(i.t >= p.interval[0], i.t < p.interval[1]))
            check(p.at_index(i), i)
            E.prove('count', True)


def profile_entry(box, ll, az, length, width):
    if 'profile' not in box:
        return False
    p = box['profile']
    return AND(len(p) == 4, pt(p['latlon'], ll), veq(p['azimuth'], az), veq(p['length'], length), veq(p['width'], width))
