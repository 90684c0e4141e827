"""C03: ray headers of an event-station pair (rf.rfstream.obj2stats, rfstats)"""
from dv.contracts.lib import *

CONTRACTS, contract = registry()
LIB = ['obspy gps2dist_azimuth and TauPyModel: functions of their arguments', 'event objects: origins and magnitudes are lists, '
       'preferred_origin() and preferred_magnitude() give one or None, items are attributes; an origin or magnitude object is '
       'true in a boolean context']
ORIGIN = ('latitude', 'longitude', 'depth', 'time')
ARRIVAL = ('time', 'incident_angle', 'ray_param_sec_degree')


class Thing(object):
    """origin or magnitude: attributes are items"""

    def __init__(self, d):
        self.__dict__.update(d)

    def __getitem__(self, k):
        return self.__dict__[k]

    def get(self, k, default=None):
        return self.__dict__.get(k, default)


def origin(E, base):
    return Thing({'latitude': E.real(base + '.lat'), 'longitude': E.real(base + '.lon'), 'depth': E.real(base + '.depth'),
                  'time': SUTC(E.real(base + '.time'))})


class Event(Thing):
    def preferred_origin(self):
        return self.porigin

    def preferred_magnitude(self):
        return self.pmag


class Id(object):
    """resource identifier with a text"""

    def __init__(self, E):
        self.text = SStr.word('resource')

    def __dvstr__(self):
        return self.text

    @property
    def id(self):
        return self.text


def event(E, kind, gone=None):
    """kind: 0 first of the list, 1 preferred, 2 none"""
    ev = Event({'resource_id': Id(E)})
    for what, pref, new in (('origins', 'porigin', lambda b: origin(E, b)),
                            ('magnitudes', 'pmag', lambda b: Thing({'mag': E.real(b)}))):
        k = kind[what]
        setattr(ev, what, DList([new(what + '0'), Gap(what, lambda: new(what))] if k == 0 else
                                [Gap(what, lambda: new(what))] if k == 1 else []))
        setattr(ev, pref, new(pref) if k == 1 else None)
    ev.used = ev.porigin or (ev.origins.parts[0] if kind['origins'] == 0 else None)
    ev.usedmag = ev.pmag or (ev.magnitudes.parts[0] if kind['magnitudes'] == 0 else None)
    if gone is not None:
        setattr(ev.used, gone, None)
    return ev


def station(E):
    return DDict([(k, E.real('station.' + k)) for k in ('latitude', 'longitude', 'elevation')])


STATION = ('station_latitude', 'station_longitude', 'station_elevation')
EVENT = ('event_latitude', 'event_longitude', 'event_depth', 'event_magnitude', 'event_time')


@contract('rf.rfstream.obj2stats', expect=['event', 'station', 'only', 'missing', 'id', 'input'],
          cover=['first', 'preferred', 'station', 'both', 'nothing', 'origin', 'attribute', 'magnitude', 'no-id'], assumptions=LIB)
def objects(E, load):
    """attributes of the preferred or first origin and magnitude, depth in km, and of the station; missing ones are errors"""
    mod = load('rf.rfstream')
    with_ev, with_st = E.choose(2), E.choose(2)
    ev = st = None
    wrong = None
    if with_ev:
        o, m = E.choose(3), E.choose(3)
        gone = None
        if o < 2 and E.choose(2):
            gone = ORIGIN[E.choose(4)]
        ev = event(E, {'origins': o, 'magnitudes': m}, gone)
        wrong = 'origin' if o == 2 else 'attribute' if gone else 'magnitude' if m == 2 else None
        if not wrong and E.choose(2):
            ev.resource_id = None
    if with_st:
        st = station(E)
        before = list(zip(st.ks, st.vs))
    kw = {}
    if with_ev:
        kw['event'] = ev
    if with_st:
        kw['station'] = st
    try:
        r = mod.obj2stats(**kw)
    except (ValueError, IndexError, AttributeError, TypeError):
        E.prove('missing', wrong is not None)
        E.cover(wrong or 'wrong')
        return
    E.prove('missing', wrong is None)
    if wrong:
        return
    if ev:
        o = ev.used
        E.prove('event', AND(veq(r['event_latitude'], o.latitude), veq(r['event_longitude'], o.longitude),
                             veq(r['event_depth'], div(o.depth, 1000)), veq(r['event_time'], o.time),
                             veq(r['event_magnitude'], ev.usedmag.mag)))
        E.cover('preferred' if ev.porigin else 'first')
        if ev.resource_id is None:
            E.prove('id', r['event_id'] is None if 'event_id' in r else True)
            E.cover('no-id')
        else:
            E.prove('id', same_text(r['event_id'], ev.resource_id.text))
    if st is not None:
        E.prove('station', AND(*[veq(r['station_' + k], v) for k, v in before]))
        E.prove('input', len(st.ks) == 3 and all(x is y for x, (_, y) in zip(st.vs, before)))
        E.cover('both' if ev else 'station')
    if ev is None and st is None:
        E.cover('nothing')
    want = (EVENT + ('event_id',) if ev else ()) + (STATION if st is not None else ())
    E.prove('only', set(r.ks) <= set(want))


def given(E, mod, with_ev, with_st, cls, extra=True):
    """what comes from objects and what is in the headers already; returns (obj, event, station, true values, stats.py)"""
    vals = {}
    for k in EVENT + STATION:
        vals[k] = header_value(E, k, 'value')
    ev = Event({}) if with_ev else None
    st = DDict([]) if with_st else None
    evid = SStr.word('evid')

    def obj2stats(event=None, station=None):
        need(event is ev and station is st, 'objects')
        d = stubs.AttribDict()
        if event is not None:
            for k in EVENT:
                d[k] = vals[k]
            d['event_id'] = evid
        if station is not None:
            for k in STATION:
                d[k] = vals[k]
        return d
    mod.obj2stats = obj2stats
    mine = () if with_ev else EVENT
    mine += () if with_st else STATION
    if cls is None:
        return None, ev, st, vals, evid
    obj = cls()
    core.newborn(obj)
    for k in EVENT + STATION:
        if k in mine:
            obj._put(k, vals[k])
        else:
            obj._put(k, header_value(E, k, 'old'))
    obj._put('foo', SStr.word('foo'))
    obj._put('distance', E.real('old.distance'))
    return obj, ev, st, vals, evid


def geometry(vals):
    d, baz, _ = stubs.gps2dist_azimuth(vals['station_latitude'], vals['station_longitude'], vals['event_latitude'],
                                       vals['event_longitude'])
    return div(div(d, 1000), SNum(z3.Q(1112, 10))), baz


def first_arrival(model, vals, dist, phase):
    return stubs._Arrival(model, vals['event_depth'], dist, phase, 0)


@contract('rf.rfstream.rfstats', expect=['headers', 'onset', 'geometry', 'arrival', 'phase', 'others', 'object', 'absent', 'id', 'point'],
          cover=['new', 'attribdict', 'stats', 'event', 'station', 'none', 'absent', 'several', 'outside', 'point'], assumptions=LIB,
          max_paths=6000)
def pair(E, load):
    """headers of one pair, whether event and station are objects or headers"""
    mod = load('rf.rfstream')
    how = E.choose(4)
    with_ev, with_st = how in (0, 1), how in (0, 2)
    cls = (stubs.AttribDict, stubs.Stats, None)[E.choose(3 if how == 0 else 2)]
    obj, ev, st, vals, evid = given(E, mod, with_ev, with_st, cls)
    ph = E.choose(4)
    phase = (SStr.word('phase'), 'P', 'S', 'SKS')[ph]
    args = dict(phase=phase)
    model = 'iasp91'
    if E.choose(2):
        model = args['tt_model'] = SStr.word('model')
    r = E.choose(2)
    args['dist_range'] = None if r == 0 else (E.real('lo'), E.real('hi'))
    calls = []
    if ph and E.choose(2):
        args['pp_depth'] = E.real('pp_depth')
        args['model'] = 'velocity model'

        class Model(object):
            def ppoint(self, stats, depth, phase='S'):
                E.prove('point', AND(veq(depth, args['pp_depth']), veq(phase, pp_phase), veq(stats['slowness'], E.want[2]),
                                     veq(stats['back_azimuth'], baz)))
                calls.append(stats)

        def load_model(fname='iasp91'):
            need(fname == 'velocity model', 'model')
            return Model()
        mod.load_model = load_model
        pp_phase = {'P': 'S', 'S': 'P', 'SKS': 'P'}[phase]
        if E.choose(2):
            pp_phase = args['pp_phase'] = SStr.word('pp_phase')
    if ev is not None:
        args['event'] = ev
    if st is not None:
        args['station'] = st
    before = list(zip(obj.ks, obj.vs)) if obj is not None else []
    dist, baz = geometry(vals)
    a = first_arrival(model, vals, dist, phase)
    E.want = [a.time, a.incident_angle, a.ray_param_sec_degree]
    E.narr = None
    n0 = len(E.log)
    try:
        s = mod.rfstats(*((obj,) if obj is not None else ()), **args)
    except Exception as ex:
        if isinstance(ex, (core.EngineExc, AttributeError, KeyError, NameError)):
            raise
        E.prove('absent', E.narr == 0)
        E.cover('absent')
        return
    E.prove('absent', E.narr != 0)
    if s is None:
        need(r == 1, 'nothing returned')
        E.cover('outside')
        return
    if E.narr == 2:
        E.cover('several')
    E.prove('object', s is obj if obj is not None else isinstance(s, stubs.AttribDict))
    E.prove('headers', AND(*[veq(s[k], vals[k]) for k in EVENT + STATION]))
    E.prove('geometry', AND(veq(s['distance'], dist), veq(s['back_azimuth'], baz)))
    E.prove('onset', veq(s['onset'], vals['event_time'] + E.want[0]))
    E.prove('arrival', AND(veq(s['inclination'], E.want[1]), veq(s['slowness'], E.want[2])))
    E.prove('phase', veq(s['phase'], phase))
    if with_ev:
        E.prove('id', veq(s['event_id'], evid))
    known = EVENT + STATION + ('distance', 'back_azimuth', 'onset', 'inclination', 'slowness', 'phase', 'event_id')
    now = dict(zip(s.ks, s.vs))
    conds = [k in now and veq(now[k], v) for k, v in before if k not in known]
    E.prove('others', AND(*([c for c in conds] + [k in dict(before) or k in known for k in now])))
    E.prove('point', len(calls) == ('pp_depth' in args) and all(c is s for c in calls))
    if calls:
        E.cover('point')
    E.cover({None: 'new', stubs.AttribDict: 'attribdict', stubs.Stats: 'stats'}[cls])
    E.cover(('none', 'event', 'station', 'none')[how])
