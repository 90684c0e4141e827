"""C06: rf.util.iter_event_data, rf.util._get_stations, rf.batch.init_data"""
import types
from dv.contracts.lib import *
from dv.contracts import c03

CONTRACTS, contract = registry()
LIB = ['inventory: get_coordinates gives coordinates or raises an Exception', 'waveform provider: gives a stream or None or raises '
       'an Exception; obspy trim and merge change only the stream they are called for, or raise an Exception',
       'rfstats enters by its contract (C03, C04): ray headers, None or an Exception',
       'a seed id has four fields without dots', 'a station table (dict) has different keys']
RAY = ('event_latitude', 'event_longitude', 'event_depth', 'event_magnitude', 'event_time', 'station_latitude',
       'station_longitude', 'station_elevation', 'distance', 'back_azimuth', 'inclination', 'slowness', 'onset', 'phase')


class Stations(DDict):
    """seed id (component ?) -> component; any number of others"""

    def __parts__(self):
        return [self.gap('before'), self.seed, self.gap('behind')]

    def gap(self, base):
        if base not in self.gaps:
            self.gaps[base] = Gap('stations_' + base, lambda: self.new(base))
        return self.gaps[base]

    def new(self, base):
        s = SStr([SStr.word(base + '.net').pieces[0], '.', SStr.word(base + '.sta').pieces[0], '.',
                  SStr.word(base + '.loc').pieces[0], '.', SStr.word(base + '.cha').pieces[0], '?'])
        for o, _ in self.table:
            core.E.assume(NOT(SBool(zb(veq(o, s)))))
        self.table.append((s, SStr.char(base + '.comp')))
        return s

    def keys(self):
        return DList(self.__parts__())

    def values(self):
        raise core.Unsupported('values of the station table')

    def items(self):
        return DList([Gap('items1', lambda: self.pair(self.gap('before').fresh())), self.pair(self.seed),
                      Gap('items2', lambda: self.pair(self.gap('behind').fresh()))])

    def pair(self, s):
        return s, self[s]

    def __getitem__(self, k):
        for s, c in self.table:
            if s is k:
                return c
        raise core.Unsupported('entry of another station')

    def __iter__(self):
        raise core.Unsupported('iteration of stations')

    def length(self):
        return self.gap('before').n + 1 + self.gap('behind').n

    def __len__(self):
        raise core.Unsupported('length of stations')


class Waves(stubs.Stream):
    """raw data of one request"""

    def trim(self, starttime=None, endtime=None, *a, **k):
        self.op('trim', starttime, endtime, *a, **k)
        return self

    def merge(self, *a, **k):
        self.op('merge', *a, **k)
        return self


class Failure(Exception):
    """an exception of a library"""


class Bar(object):
    total = None

    def __init__(self):
        self.n = 0

    def update(self, n):
        self.n = n


# what happens to a pair
OUT = ['coordinates', 'no-origin', 'headers', 'outside', 'provider', 'nothing', 'trim', 'merge', 'zero', 'two', 'four', 'gap',
       'ok']
OTHER = [o for o in OUT if o != 'no-origin']


@contract('rf.util.iter_event_data', expect=['once', 'request', 'window', 'delivered', 'skipped', 'survives', 'cut', 'headers', 'samples',
                                        'coordinates', 'stats', 'type'],
          cover=['pair/' + o for o in OUT] + ['P', 'S', 'explicit', 'other'], max_paths=20000, budget=400, assumptions=LIB)
def retrieve(E, load):
    """an arbitrary pair among any number of events and stations, each of which may fail in any way: it is requested once for
    the padded window and delivered if and only if it has three components without gaps"""
    mod, rs = load('rf.util'), load('rf.rfstream')
    tab = Stations([])
    tab.table, tab.gaps = [], {}
    tab.seed = tab.new('S')
    inventory = object()
    kind = E.choose(3)
    window = None
    if kind == 0:
        phase = 'P'
        window, given = (-50, 150), None
        E.cover('P')
    elif kind == 1:
        phase = 'S'
        window, given = (-100, 50), None
        E.cover('S')
    else:
        phase = SStr([SStr.word('ph').pieces[0], SStr.char('ph.last').pieces[0]])
        window = given = (E.real('from'), E.real('to'))
        E.cover('explicit')
    args = {'phase': phase} if kind else {}
    if given is not None:
        args['request_window'] = given
    pad = lift(10)
    if kind == 2:
        pad = args['pad'] = E.real('pad')
        args['pbar'] = Bar()
    extra = {'dist_range': (E.real('lo'), E.real('hi')), 'tt_model': SStr.word('tt')} if kind == 2 else {}
    args.update(extra)
    fate = E.choose(len(OUT))
    main = OUT[fate]
    E0 = c03.event(E, {'origins': 2 if main == 'no-origin' else kind % 2, 'magnitudes': 0})
    events = DList([Gap('events_before', lambda: c03.event(E, {'origins': 0, 'magnitudes': 0})), E0,
                    Gap('events_behind', lambda: c03.event(E, {'origins': 0, 'magnitudes': 0}))])
    calls, made = [], []

    def letter(code):
        for s, c in tab.table:
            if bool(veq(code, SStr(s.pieces[:-1]) + c)):
                return s
        return None

    class Pair(object):
        pass
    cur = [None]

    def outcome(p):
        """of the pair which is asked for first: the representative one, or any other"""
        if p.event is E0 and p.seed is tab.seed:
            return main
        E.cover('other')
        if not any(c[1] is E0 and c[2] is tab.seed for c in calls) and (main != 'ok' or kind < 2):
            # before the representative pair, whose fate plays no role yet
            raise core.PathEnd()
        return OTHER[E.choose(len(OTHER))] if main == 'ok' and kind == 2 else 'ok'

    def get_coordinates(code, datetime=None):
        p = Pair()
        p.seed = letter(code)
        need(p.seed is not None, 'coordinates of another station')
        evs = [e for e in seen_events() if e.used is not None and datetime is e.used.time]
        need(len(evs) == 1, 'coordinates at the time of an event')
        p.event = evs[0]
        p.out = outcome(p)
        calls.append(('coordinates', p.event, p.seed))
        cur[0] = p
        E.prove('coordinates', True)
        if p.out == 'coordinates':
            raise Failure('station not available')
        p.coords = DDict([('latitude', E.real('lat')), ('longitude', E.real('lon')), ('elevation', E.real('ele'))])
        return p.coords

    def seen_events():
        return [E0] + others
    others = []
    for g in events.parts:
        if isinstance(g, Gap):
            def fresh(f=g.fresh):
                e = f()
                others.append(e)
                return e
            g.fresh = fresh
    inv = types.SimpleNamespace(get_coordinates=get_coordinates)

    def _get_stations(i):
        need(i is inv, 'inventory')
        return tab
    mod._get_stations = _get_stations

    def rfstats(obj=None, event=None, station=None, phase='P', **kw):
        p = cur[0]
        need(obj is None and p is not None, 'headers of a pair')
        E.prove('stats', AND(event is p.event, station is p.coords, veq(phase, args.get('phase', 'P')), set(kw) == set(extra),
                             all(kw[k] is extra[k] for k in kw if k in extra)))
        calls.append(('headers', p.event, p.seed))
        if p.out == 'headers':
            raise Failure('no arrival')
        if p.out == 'outside':
            return None
        d = stubs.AttribDict()
        for k in RAY:
            d[k] = header_value(E, k, 'ray')
        p.stats = d
        p.values = dict(zip(d.ks, d.vs))
        return d
    rs.rfstats = rfstats

    def get_waveforms(**kw):
        p = cur[0]
        need(p is not None, 'request of a pair')
        net, sta, loc, cha = [SStr([q]) for q in p.seed.pieces[::2][:3]] + [SStr(p.seed.pieces[6:])]
        E.prove('request', AND(set(kw) == {'network', 'station', 'location', 'channel', 'starttime', 'endtime'}))
        E.prove('request', AND(veq(kw['network'], net), veq(kw['station'], sta), veq(kw['location'], loc),
                               veq(kw['channel'], cha)))
        onset = p.values['onset']
        E.prove('window', AND(veq(kw['starttime'], onset + (lift(window[0]) - pad)), veq(kw['endtime'], onset + (lift(window[1]) + pad))))
        calls.append(('request', p.event, p.seed))
        if p.out == 'provider':
            raise Failure('no data')
        if p.out == 'nothing':
            return None
        w = Waves()
        p.waves = w
        p.cut = []
        p.ops = []
        n = {'zero': 0, 'two': 2, 'four': 4}.get(p.out, 3)
        ts = [trace(E, stubs.Trace, 'w%d' % i, present=(), unknown=()) for i in range(n)]
        if p.out == 'gap':
            ts[E.choose(3)].data.masked = True
        p.result = ts
        raw = [trace(E, stubs.Trace, 'raw', present=(), unknown=())]
        object.__setattr__(w, 'traces', DList(raw))

        def op(what, *a, **k):
            p.ops.append(what)
            if p.out == what:
                raise Failure(what)
            if what == 'trim':
                need(not k and len(a) == 2, 'arguments of trim')
                p.cut.append(a)
            else:
                need(not a and not k, 'arguments of merge')
                object.__setattr__(w, 'traces', DList(ts))
                p.snaps = [Snap(t) for t in ts]
                made.append(p)
        object.__setattr__(w, 'op', op)
        return w
    delivered = []
    try:
        for out in mod.iter_event_data(events, inv, get_waveforms, **args):
            p = cur[0]
            E.prove('delivered', p is not None and p.out == 'ok' and p not in delivered)
            if p is None or p.out != 'ok':
                raise core.PathEnd()
            delivered.append(p)
            E.prove('type', type(out) is rs.RFStream)
            q = parts_of(out.traces)
            E.prove('delivered', len(q) == 3 and 'merge' in p.ops)
            onset = p.values['onset']
            E.prove('cut', AND(len(p.cut) >= 1, *[AND(veq(a, onset + lift(window[0])), veq(b, onset + lift(window[1])))
                                                  for a, b in p.cut]))
            for t, t0, sn in zip(q, p.result, p.snaps):
                E.prove('headers', AND(*[k in t.stats and veq(t.stats[k], p.values[k]) for k in RAY]))
                E.prove('headers', sn.headers(t.stats, RAY))
                E.prove('samples', sn.samples(t.data))
            if p.event is E0 and p.seed is tab.seed:
                E.cover('pair/ok')
    except Failure as ex:
        E.prove('survives', False)
        raise core.PathEnd()
    except (AttributeError, IndexError, KeyError, ValueError, TypeError) as ex:
        if cur[0] is None and main != 'no-origin' or cur[0] is not None and cur[0].out not in ('nothing', 'zero', 'two', 'four',
                                                                                            'gap', 'no-origin'):
            raise
        E.prove('survives', False)
        raise core.PathEnd()
    E.prove('survives', True)
    mine = [c[0] for c in calls if c[1] is E0 and c[2] is tab.seed]
    want = {'no-origin': 0, 'coordinates': 1, 'headers': 2, 'outside': 2}.get(main, 3)
    E.prove('once', mine == ['coordinates', 'headers', 'request'][:want])
    got = [p for p in delivered if p.event is E0 and p.seed is tab.seed]
    E.prove('delivered' if main == 'ok' else 'skipped', len(got) == (main == 'ok'))
    E.cover('pair/' + main)


@contract('rf.util._get_stations', expect=['keys', 'component'], cover=['same', 'different'],
          assumptions=['BOUNDED: _get_stations is evaluated for inventories of at most three channel codes (each arbitrary)'])
def table(E, load):
    """one entry per code without component letter, with the component of one of its channels"""
    mod = load('rf.util')
    n = E.choose(4)
    codes = []
    for i in range(n):
        s = SStr([SStr.word('c%d.a' % i).pieces[0], '.', SStr.word('c%d.b' % i).pieces[0], SStr.char('c%d.comp' % i).pieces[0]])
        codes.append(s)
    inv = types.SimpleNamespace(get_contents=lambda: DDict([('channels', DList(codes))]))
    r = mod._get_stations(inv)
    need(isinstance(r, DDict), 'dict of stations')
    for c in codes:
        hits = [v for k, v in zip(r.ks, r.vs) if bool(veq(k, SStr(c.pieces[:-1] + ['?'])))]
        E.prove('keys', len(hits) == 1)
        E.prove('component', OR(*[AND(veq(v, SStr(d.pieces[-1:])), veq(SStr(d.pieces[:-1]), SStr(c.pieces[:-1])))
                                  for v in hits for d in codes]))
    for k in r.ks:
        E.prove('keys', OR(*[veq(k, SStr(c.pieces[:-1] + ['?'])) for c in codes]))
    E.cover('same' if len(r.ks) < n else 'different')


@contract('rf.batch.init_data, rf.batch.load_func', expect=['result', 'failure', 'interrupt', 'request'],
          cover=['client', 'plugin', 'file', 'failure', 'interrupt'],
          assumptions=['importlib.import_module and obspy.read enter as stand-ins'])
def provider(E, load):
    """the request is passed on; what an Exception of the provider gives is None; interrupts are not held back"""
    mod = load('rf.batch')
    kind = ('client', 'plugin', 'file')[E.choose(3)]
    kw = {'network': SStr.word('net'), 'station': SStr.word('sta'), 'location': SStr.word('loc'), 'channel': SStr.word('cha'),
          'starttime': SUTC(E.real('t1')), 'endtime': SUTC(E.real('t2'))}
    if E.choose(2):
        kw['event'] = object()
    what = E.choose(4)
    answer = object()
    asked = []

    def request(**k):
        asked.append(k)
        if what == 1:
            raise Failure('no data')
        if what == 2:
            raise KeyboardInterrupt
        if what == 3:
            raise SystemExit
        return answer
    opts = {'user': SStr.word('user')}
    made = []

    class Client(object):
        def __init__(self, **k):
            made.append(k)

        def get_waveforms(self, **k):
            return request(**k)

    class Data(object):
        def select(self, *a, **k):
            need(not a, 'selection')
            self.sel = k
            return self

        def slice(self, starttime=None, endtime=None):
            return request(starttime=starttime, endtime=endtime, **self.sel)

    def import_module(name):
        if kind == 'client' and name == 'obspy.clients.fdsn':
            return types.SimpleNamespace(Client=Client)
        if kind == 'plugin' and name == 'module':
            return types.SimpleNamespace(function=lambda **k: request(**k))
        raise ImportError(name)
    mod.import_module = import_module
    data = {'client': 'fdsn', 'plugin': 'plugin', 'file': 'file name'}[kind]
    ob = types.ModuleType('obspy')

    def read(name, *a, **k):
        need(name == 'file name' and not a and not k, 'file name')
        return Data()
    if kind == 'file':
        old = E.loader.stubs['obspy']
        ob.__dict__.update(old.__dict__)
        ob.read = read
        E.loader.stubs = dict(E.loader.stubs, obspy=ob)
        mod.obspy = ob
    g = mod.init_data(data, **({'client_options': opts} if kind == 'client' else
                               {'plugin': 'module : function'} if kind == 'plugin' else {}))
    stdout = []
    mod.print = lambda *a, **k: stdout.append(a)
    try:
        r = g(**kw)
    except Failure:
        E.prove('failure', False)
        return
    except (KeyboardInterrupt, SystemExit):
        E.prove('interrupt', what in (2, 3))
        E.cover('interrupt')
        return
    E.prove('interrupt', what not in (2, 3))
    if what == 1:
        E.prove('failure', r is None)
        E.cover('failure')
    else:
        E.prove('result', r is answer)
        E.cover(kind)
    want = dict((k, v) for k, v in kw.items() if kind == 'plugin' or k != 'event')
    E.prove('request', len(asked) == 1 and set(asked[0]) == set(want) and all(asked[0][k] is want[k] for k in want))
    if kind == 'client':
        E.prove('request', made == [opts])
