"""C20: rf.profile.profile, rf.profile._find_box"""
import types
import z3
from dv.contracts.lib import *

CONTRACTS, contract = registry()
LIB = ['cartopy projections and shapely within: a function of projection, point and polygon',
       'traces of one box and component have equal length; boxes have different positions']


class Projection(object):
    def __init__(self, name, *args):
        self.name, self.args = name, args

    def project_geometry(self, g, src=None):
        need(isinstance(src, Projection) and src.name == 'PlateCarree', 'projection of the coordinates')
        return Projected(self, g)


class Projected(object):
    def __init__(self, crs, g):
        self.crs, self.g = crs, g

    def within(self, o):
        need(isinstance(self.g, Point) and self.crs is o.crs and isinstance(o.g, Poly), 'test of point and polygon')
        return o.g.holds(self.g)

    def contains(self, o):
        return o.within(self)


class Point(object):
    def __init__(self, x, y):
        self.x, self.y = x, y


class Poly(object):
    """polygon of a box; for every projection contains the point or not"""

    def __init__(self, E):
        self.b = E.bool('within')
        self.tested = []

    def holds(self, p):
        self.tested.append(p)
        return self.b


def library(E):
    g = types.ModuleType('shapely.geometry')
    g.Point = Point
    top = types.ModuleType('shapely')
    top.geometry = g
    c = types.ModuleType('cartopy.crs')
    c.AzimuthalEquidistant = lambda *a, **k: Projection('AzimuthalEquidistant', a, k)
    c.PlateCarree = lambda: Projection('PlateCarree')
    ct = types.ModuleType('cartopy')
    ct.crs = c
    E.loader.stubs = dict(E.loader.stubs, shapely=top, cartopy=ct)
    E.loader.stubs['shapely.geometry'] = g
    E.loader.stubs['cartopy.crs'] = c


def box(E, base, profile=None):
    d = DDict([('poly', Poly(E)), ('length', E.real(base + '.length')), ('pos', E.real(base + '.pos')),
               ('latlon', (E.real(base + '.lat'), E.real(base + '.lon')))])
    if profile is not None:
        d['profile'] = profile
    return d


@contract('rf.profile._find_box', expect=['first', 'contains', 'none', 'point', 'frame'],
          cover=['found', 'earlier', 'later', 'none', 'crs', 'default'], assumptions=LIB)
def find(E, load):
    """any number of boxes among them B: the result is B if B contains the point and no earlier box was taken; an
    earlier result contains the point; a later result or none only if B does not contain it"""
    library(E)
    mod = load('rf.profile')
    B = box(E, 'B')
    made = {'g1': [], 'g2': []}

    def gap(base):
        def fresh():
            b = box(E, base)
            made[base].append(b)
            return b
        return Gap(base, fresh)
    parts = [gap('g1'), B, gap('g2')]
    boxes = DList(parts)
    ll = (E.real('lat'), E.real('lon'))
    kw = {}
    if E.choose(2):
        kw['crs'] = Projection('given')
        E.cover('crs')
    else:
        E.cover('default')
    r = mod._find_box(ll, boxes, **kw)
    w = B['poly'].b
    if r is B:
        E.prove('contains', w)
        E.cover('found')
    elif r is None:
        E.prove('none', NOT(w))
        E.cover('none')
    elif any(r is b for b in made['g1']):
        E.prove('first', True)
        E.prove('contains', r['poly'].b)
        E.cover('earlier')
    elif any(r is b for b in made['g2']):
        E.prove('first', NOT(w))
        E.prove('contains', r['poly'].b)
        E.cover('later')
    else:
        E.prove('contains', False)
    for b in [B] + made['g1'] + made['g2']:
        for p in b['poly'].tested:
            E.prove('point', AND(veq(p.x, ll[1]), veq(p.y, ll[0])))
    E.prove('frame', len(parts_of(boxes)) == 3 and all(x is y for x, y in zip(parts_of(boxes), parts)))


class Table(DDict):
    """dict with one known entry at most and any number of other ones"""

    def gaps(self):
        return self.other

    def values(self):
        return DList([self.other[0]] + list(self.vs) + [self.other[1]])

    def items(self):
        raise core.Unsupported('items of a table')
    keys = __iter__ = __len__ = length = items

    def __bool__(self):
        raise core.Unsupported('emptiness of a table')


COPIED = ('slowness', 'phase', 'moveout', 'processing')


@contract('rf.profile.profile', 'rf.rfstream.RFTrace.__init__', 'rf.rfstream.RFStream.__init__',
          expect=['find', 'new', 'sum', 'number', 'kept', 'others', 'skipped', 'header', 'copied', 'onset', 'mean', 'type', 'sorted', 'input',
                  'samples', 'one', 'own-array', 'geometry'],
          cover=['first', 'second', 'more', 'other', 'outside', 'result', 'result-one', 'none'], max_paths=6000,
          assumptions=LIB + ['_find_box enters by its contract (above)', 'obspy sort sorts in place'])
def stack(E, load):
    """loop invariant for an arbitrary key K (box and component): the table has an entry for K if and only if a trace with
    this key was seen; its data are the sum of these traces, num their number, its headers those of the box, the profile
    and the first such trace"""
    library(E)
    mod, rs = load('rf.profile'), load('rf.rfstream')
    pf = DDict([('latlon', (E.real('pf.lat'), E.real('pf.lon'))), ('azimuth', E.real('pf.azi')), ('length', E.real('pf.length')),
                ('width', E.real('pf.width'))])
    first = E.choose(2)
    K, Q = box(E, 'K', pf if first else None), box(E, 'Q', None)
    E.assume(K['pos'].t != Q['pos'].t)
    boxes = DList(([] if first else [box(E, 'box0', pf)]) + [K, Gap('boxes', lambda: box(E, 'bx'))])
    n = E.int('npts', 1)
    letter = SStr.char('letter')
    have = E.choose(2)          # optional headers
    keys = ('onset',) + COPIED[:3] if have else ()
    inputs, finds = [], []

    def make(base, comp, where):
        t = trace(E, rs.RFTrace, base, npts=n, present=keys + ('pp_latitude', 'pp_longitude'), unknown=('type', 'event_time'),
                  values={'channel': lambda: SStr([SStr.word(base + '.chan'), comp])})
        if have:
            t.stats._put('processing', DList([Gap(base + '.history', lambda: SStr.word('entry')), SStr.word(base + '.old')]))
        inputs.append((t, Snap(t), list(parts_of(t.stats['processing'])) if have else None))
        object.__setattr__(t, 'origin', where)
        return t

    def _find_box(latlon, bs, crs=None):
        for t, _, _ in inputs:
            if holds(AND(veq(latlon[0], t.stats['pp_latitude']), veq(latlon[1], t.stats['pp_longitude']))):
                break
        else:
            raise core.Unsupported('box of other coordinates')
        E.prove('find', AND(bs is boxes, crs is given))
        finds.append(t)
        return t.origin
    mod._find_box = _find_box
    given = Projection('given') if E.choose(2) else None
    hits = []

    def spoiled():
        for t, sn, rec in inputs:
            E.prove('input', sn.headers(t.stats))
            E.prove('samples', sn.samples(t.data))
            if rec is not None:
                now = parts_of(t.stats['processing'])
                E.prove('input', len(now) == len(rec) and all(x is y for x, y in zip(now, rec)))

    def header(T, F):
        st = T.stats
        E.prove('header', AND(veq(st['box_pos'], K['pos']), veq(st['box_length'], K['length']),
                              veq(st['box_latitude'], K['latlon'][0]), veq(st['box_longitude'], K['latlon'][1]),
                              veq(st['sampling_rate'], F.stats['sampling_rate'])))
        E.prove('geometry', AND(veq(st['profile_latitude'], pf['latlon'][0]), veq(st['profile_longitude'], pf['latlon'][1]),
                                veq(st['profile_azimuth'], pf['azimuth']), veq(st['profile_length'], pf['length'])))
        E.prove('header', veq(st['channel'], SStr(['??', letter])))
        for k in COPIED[:3]:
            E.prove('copied', (k in st) == bool(have) and (not have or veq(st[k], F.stats[k])))
        if have:
            E.prove('copied', st['processing'] is not F.stats['processing'])
            E.prove('onset', veq(st['onset'] - st['starttime'], F.stats['onset'] - F.stats['starttime']))
        else:
            E.prove('onset', 'onset' not in st)

    def entry(tab, key):
        for k, v in zip(tab.ks, tab.vs):
            need(isinstance(k, tuple) and len(k) == 2 and core.isnumber(k[0]) and isinstance(k[1], (str, SStr)) and
                 isinstance(v, rs.RFTrace), 'table from position and component to trace')
        vs = [v for k, v in zip(tab.ks, tab.vs) if bool(veq(k, key))]
        return vs
    key = (K['pos'], letter)

    def table(loc):
        ts = [v for v in loc.values() if isinstance(v, DDict) and not v.ks and v is not boxes]
        need(len({id(v) for v in ts}) == 1, 'one empty table')
        return ts[0]

    def more(tab, F):
        """state after two or more traces with this key: what the iterations below establish"""
        E.loader.fresh = True
        T = trace(E, rs.RFTrace, 'T', npts=n, present=keys, unknown=())
        c = E.int('count', 2)
        for k, v in (('box_pos', K['pos']), ('box_length', K['length']), ('box_latitude', K['latlon'][0]),
                     ('box_longitude', K['latlon'][1]), ('profile_latitude', pf['latlon'][0]),
                     ('profile_longitude', pf['latlon'][1]), ('profile_azimuth', pf['azimuth']),
                     ('profile_length', pf['length']), ('num', c), ('sampling_rate', F.stats['sampling_rate']),
                     ('channel', SStr(['??', letter]))):
            T.stats._put(k, v)
        for k in keys[1:]:
            T.stats._put(k, F.stats[k])
        if have:
            T.stats._put('processing', DList(parts_of(F.stats['processing'])))
            T.stats._put('onset', T.stats['starttime'] + (F.stats['onset'] - F.stats['starttime']))
        return T, core.freeze(T.data), c

    class Over(Exception):
        pass

    def loop(loc, it, st):
        tab = table(loc)
        need(it is s or it is s.traces, 'loop over the stream')
        mode = E.choose(6)
        if mode == 0:
            # a trace outside of all boxes
            x = make('x', letter, None)
            put = E.choose(2)
            if put:
                T, S, c = more(tab, F)
                tab._put(key, T)
            yield x
            E.prove('skipped', len(tab.ks) == put and (not put or tab.vs[0] is T and T.data is not None))
            if put:
                E.prove('skipped', AND(core.arr_eq(T.data, S), veq(T.stats['num'], c)))
            spoiled()
            E.cover('outside')
            raise core.PathEnd()
        if mode == 1:
            # a trace of another key, seen before or not
            same_box = E.choose(2)
            o = SStr.char('other')
            if same_box:
                E.assume(NOT(veq(o, letter)))
            x = make('x', o, K if same_box else Q)
            put, seen = E.choose(2), E.choose(2)
            if put:
                T, S, c = more(tab, F)
                tab._put(key, T)
            if seen:
                U = trace(E, rs.RFTrace, 'U', npts=n, present=keys, unknown=())
                U.stats._put('num', E.int('countU', 1))
                tab._put(((K if same_box else Q)['pos'], o), U)
            yield x
            mine = entry(tab, key)
            E.prove('others', len(mine) == put and (not put or mine[0] is T))
            E.prove('others', len(tab.ks) == put + 1)
            if put:
                E.prove('others', AND(core.arr_eq(T.data, S), veq(T.stats['num'], c)))
            spoiled()
            E.cover('other')
            raise core.PathEnd()
        if mode == 5:
            # no trace with this key
            done(tab, None, None, None)
            E.cover('none')
            return
        # a trace with this key, the first one or a later one
        if mode in (2, 3):
            yield F
            vs = entry(tab, key)
            E.prove('new', len(vs) == 1 and len(tab.ks) == 1)
            T = vs[0]
            E.prove('new', AND(isinstance(T, rs.RFTrace), T is not F, T.stats is not F.stats))
            E.prove('sum', core.arr_eq(T.data, fsnap.frozen))
            E.prove('number', veq(T.stats['num'], 1))
            header(T, F)
            spoiled()
            E.cover('first')
            if mode == 2:
                done(tab, T, core.freeze(T.data), lift(1))
                return
            S, c = core.freeze(T.data), lift(1)
        else:
            T, S, c = more(tab, F)
            tab._put(key, T)
            if E.choose(2):
                done(tab, T, S, c)
                return
        sn = Snap(T)
        x = make('x', letter, K)
        yield x
        vs = entry(tab, key)
        E.prove('kept', len(vs) == 1 and len(tab.ks) == 1)
        t = vs[0]
        k = E.int('k', 0)
        E.assume(k.t < n.t)
        E.prove('sum', AND(veq(t.data.shape[0], n), veq(t.data.at(k), S.at(k) + x.data.at(k))))
        E.prove('number', veq(t.stats['num'], c + 1))
        E.prove('kept', sn.headers(t.stats, ('num',)))
        E.prove('own-array', t.data.buf is not x.data.buf and t.data.buf is not F.data.buf)
        spoiled()
        E.cover('second' if mode == 3 else 'more')
        raise core.PathEnd()

    def done(tab, T, S, c):
        def fresh():
            t = trace(E, rs.RFTrace, 'stacked', npts=n, present=keys, unknown=())
            t.stats._put('num', E.int('numU', 1))
            return t
        tab.__class__ = Table
        tab.other = [Gap('entries1', fresh), Gap('entries2', fresh)]
        hits.append((T, S, c))
    F = make('F', letter, K)
    fsnap = inputs[0][1]
    s = stream(rs.RFStream, [traces(E, rs.RFTrace, 'input')])
    E.for_specs = {'rf.profile.profile:0': loop}
    E.append_fresh = lambda x: (lambda: trace(E, rs.RFTrace, 'listed')) if isinstance(x, stubs.Trace) else None
    sorts = []

    def sort(st, keys, reverse):
        sorts.append((st, list(keys), reverse))
        return st
    E.sort_hook = sort
    f = getattr(mod.profile, '__wrapped__', mod.profile)
    r = f(s, boxes, **({'crs': given} if given is not None else {}))
    need(len(hits) == 1, 'one loop')
    T, S, c = hits[0]
    need(isinstance(r, rs.RFStream), 'result')
    need(sorts, 'sort')
    E.prove('sorted', len(sorts) == 1 and sorts[0][0] is r and sorts[0][1] == ['channel', 'box_pos'] and not sorts[0][2])
    own = [t for t in parts_of(r.traces) if not isinstance(t, Gap)]
    E.prove('one', len(own) == (0 if T is None else 1) and r is not s)
    if T is not None:
        t = own[0]
        k = E.int('k', 0)
        E.assume(k.t < n.t)
        E.prove('mean', AND(veq(t.data.shape[0], n), veq(t.data.at(k), div(S.at(k), c))))
        E.prove('number', veq(t.stats['num'], c))
        E.prove('type', veq(t.stats['type'], 'profile'))
        header(t, F)
        E.cover('result-one' if c is not None and holds(veq(c, 1)) else 'result')
    spoiled()
