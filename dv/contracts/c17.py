"""C17: piercing points (rf.simple_model.SimpleModel.ppoint_distance, ppoint, rf.util.direct_geodetic,
rf.rfstream.RFStream.ppoints)"""
import z3
from dv.contracts.lib import *
from dv.contracts.c16 import layered, vslow, KM
from dv.core import ite, POISON, OpaqueObj

CONTRACTS, contract = registry()
KEY = 'C17-offset-one-layer'
KMSG = ('SimpleModel.ppoint_distance: x(depth of layer top k) is the offset accumulated in layers 0..k instead of '
        '0..k-1')


@contract('rf.simple_model.SimpleModel.ppoint_distance', expect=['odd', 'offset'], cover=['end'],
          assumptions=['ppoint_distance: z increasing, first depth <= depth < last depth, the ray reaches the depth'])
def distance(E, load):
    """offset at a depth: linear between the layer boundaries; at a boundary the accumulated offset of the legs.  The
    recorded deviation (one layer too many) is accepted as known finding, any other offset fails"""
    m, N = layered(E, load)
    E.assume(N.t >= 3)
    p, depth = E.real('p'), E.real('depth')
    E.assume(z3.And(m.z.at(0).t <= depth.t, depth.t < m.z.at(N - 1).t))
    k = E.int('layer', 0)
    E.assume(z3.And(k.t < N.t - 2, m.z.at(k).t <= depth.t, depth.t < m.z.at(k + 1).t))
    E.hints = [k, k + 1]
    ph = SPhase('phase')
    even = ph.length() % 2 == 0
    try:
        x = m.ppoint_distance(depth, p, phase=ph)
    except ValueError:
        E.prove('odd', even)
        return
    E.prove('odd', NOT(even))
    for nz in E.nonzeros:
        # z is increasing: the layer of the depth is unique
        E.assume(z3.Implies(nz.t <= k.t, m.z.at(nz).t <= m.z.at(k).t))
        E.assume(z3.Implies(nz.t >= k.t + 1, m.z.at(k + 1).t <= m.z.at(nz).t))
        if E.entails(nz.t == k.t + 1):
            sub = lambda t: z3.simplify(z3.substitute(t, (nz.t, k.t + 1)))
            x = SNum(sub(x.t), None if x.nan is None else sub(x.nan))

    def layer(v, i):
        return div(div(m.dz.at(i) * p, KM), vslow(v.at(i), p))

    def legs(v):
        return stubs.np_cumsum(SArr((N,), lambda i: layer(v, i), 'f'))
    named = [(n, legs(v), v) for n, v in ((ph.numP(), m.vp), (ph.numS(), m.vs)) if n > 0]
    acc = lambda i: sum([n * c.at(i) for n, c, v in named], SNum(z3.RealVal(0)))         # layers 0..i
    one = lambda i: sum([n * layer(v, i) for n, c, v in named], SNum(z3.RealVal(0)))
    frac = div(depth - m.z.at(k), m.z.at(k + 1) - m.z.at(k))
    recorded = acc(k) + (acc(k + 1) - acc(k)) * frac
    exact = acc(k) - one(k) + one(k) * frac
    E.cover('end')
    if E.norm.equal(x.t, recorded.t):
        E.prove('offset', SNum(x.t) == SNum(recorded.t))
        E.prove('defined', IMPLIES(SBool(lift(recorded).nan), SBool(x.nan)))
        E.known = {KEY: KMSG}
    else:
        E.prove('offset', SNum(x.t) == SNum(exact.t))


@contract('rf.simple_model.SimpleModel.ppoint', 'rf.util.direct_geodetic',
          expect=['latitude', 'longitude', 'depth', 'returned', 'frame', 'samples'], cover=['end'],
          assumptions=['ppoint: ppoint_distance enters by its contract (a number); geographiclib is a function of '
                       'latitude, longitude, azimuth and distance in m'])
def point(E, load):
    """ppoint: end point of the geodesic from the station in direction of the back azimuth over the offset (1 km =
    1000 m); stored in the headers and returned; no other header changes"""
    m, N = layered(E, load)
    RFTrace = load('rf.rfstream').RFTrace
    kind = E.choose(2)
    names = ('slowness', 'back_azimuth', 'station_latitude', 'station_longitude')
    tr = trace(E, RFTrace, 'tr', present=('onset',) + names)
    st = tr.stats
    if kind:
        st = DDict([(k, tr.stats[k]) for k in names])
    old = {k: st[k] for k in names}
    snap = Snap(tr)
    calls = []

    def dist(depth, slowness, phase='S'):
        calls.append((depth, slowness, phase))
        return E.real('dr')
    object.__setattr__(m, 'ppoint_distance', dist)
    depth, ph = E.real('depth'), SPhase('phase')
    r = m.ppoint(st, depth, phase=ph)
    need(len(calls) == 1, 'ppoint_distance is not called once')
    dr = SNum(z3.Real('dr'))
    E.prove('arguments', AND(veq(calls[0][0], depth), veq(calls[0][1], old['slowness']), calls[0][2].key == ph.key))
    ref = stubs.Geodesic.WGS84.Direct(old['station_latitude'], old['station_longitude'], old['back_azimuth'], dr * 1000)
    E.prove('latitude', veq(st['pp_latitude'], ref['lat2']))
    E.prove('longitude', veq(st['pp_longitude'], ref['lon2']))
    E.prove('depth', veq(st['pp_depth'], depth))
    E.prove('returned', AND(veq(r[0], ref['lat2']), veq(r[1], ref['lon2'])))
    if kind:
        E.prove('frame', AND(len(st) == 7, *[veq(st[k], old[k]) for k in names]))
    else:
        E.prove('frame', snap.headers(st, ('pp_latitude', 'pp_longitude', 'pp_depth')))
        E.prove('samples', snap.samples(tr.data))
    E.cover('end')


@contract('rf.rfstream.RFStream.ppoints', expect=['order', 'row', 'headers', 'phase', 'model'], cover=['end'],
          assumptions=['RFStream.ppoints: ppoint enters by its contract; load_model returns a model for the name'])
def ppoints(E, load):
    """ppoints: ppoint is called once for every trace, in order, with the given depth and phase (S for P receiver
    functions, P for S receiver functions by default) and the named model; the result has one row (latitude,
    longitude) per trace in stream order"""
    rs = load('rf.rfstream')
    pps = ('pp_latitude', 'pp_longitude', 'pp_depth')
    g1 = traces(E, rs.RFTrace, 'before', present=('onset', 'slowness') + pps)
    g2 = traces(E, rs.RFTrace, 'behind', present=('onset', 'slowness') + pps)
    tr = trace(E, rs.RFTrace, 'tr', present=('onset', 'slowness'))
    s = stream(rs.RFStream, [g1, tr, g2])
    method = ('P', 'S')[E.choose(2)]
    rs.RFStream.method = property(lambda self: method)
    calls, models, rows = [], [], []

    class Model(object):
        def ppoint(self, stats, depth, phase='S'):
            calls.append((stats, depth, phase))
            for i, k in enumerate(pps):
                stats._put(k, (E.real('lat'), E.real('lon'), depth)[i])
            return stats['pp_latitude'], stats['pp_longitude']

    def load_model(name='iasp91'):
        models.append(name)
        return Model()
    rs.load_model = load_model
    E.gap_array = lambda ps: rows.append(ps) or OpaqueObj('rows')
    depth = E.real('depth')
    kw = {}
    if E.choose(2):
        kw['pp_phase'] = SPhase('phase')
    if E.choose(2):
        kw['model'] = SStr.word('modelname')
    r = s.ppoints(depth, **kw)
    need(len(rows) == 1 and isinstance(r, OpaqueObj), 'result is no array of one row per trace')
    own = [c for c in calls if c[0] is tr.stats]
    E.prove('headers', len(own) == 1 and len(calls) == 1)
    E.prove('depth', veq(own[0][1], depth))
    want = kw.get('pp_phase', {'P': 'S', 'S': 'P'}[method])
    E.prove('phase', own[0][2] is want or veq(own[0][2], want))
    E.prove('model', AND(len(models) == 1, veq(models[0], kw.get('model', 'iasp91'))))
    ps = rows[0]
    E.prove('order', len(ps) == 3 and getattr(ps[0], 'image_of', None) is g1 and getattr(ps[2], 'image_of', None) is g2)
    row = ps[1]
    E.prove('row', AND(len(row) == 2, veq(row[0], tr.stats['pp_latitude']), veq(row[1], tr.stats['pp_longitude'])))
    E.cover('end')
