"""C22: rf.batch.run_commands and rf.batch.run: every stream gets the requested steps with the configured options"""
import types
from dv import stubs
from dv.contracts.lib import *

CONTRACTS, contract = registry()

LIB = ['the readers iter_event_data, iter_event_processed_data and _iter_profile (C06, C23), the steps RFStream.rf, '
       'moveout, stack, profile (C08, C14, C18, C20) and the writer rf.batch.write (C23) enter by their contracts: here '
       'they only record that they were called and with which options',
       'obspy.read_events, read_inventory and json return what the file or text holds']
OPTS = ('client_options', 'options', 'rf', 'moveout', 'boxes', 'profile', 'plot', 'plot_profile')


class Catalog(object):
    def __init__(self):
        self.n = core.E.int('events', 0)

    def length(self):
        return self.n

    def __getitem__(self, i):
        return object()


class Inventory(object):
    pass


class ParseErrorSeen(Exception):
    pass


class Item(object):
    """a stream of the input: records what is done with it"""

    def __init__(self, chans=()):
        self.done = []
        self.chans = chans

    def rf(self, **kw):
        self.done.append(('calc', kw))
        return self

    def moveout(self, **kw):
        self.done.append(('moveout', kw))
        return self

    def stack(self):
        s = Item()
        s.done = self.done + [('stack',)]
        s.source = self
        return s


class World(object):
    def __init__(self, E, load, names=('iter_event_data', 'iter_event_processed_data', '_iter_profile', 'init_data')):
        self.E = E
        self.mod = mod = load('rf.batch')
        self.events, self.inventory = Catalog(), Inventory()
        self.log, self.gapitems = [], []
        self.rep = Item()
        self.want = None
        ob = types.ModuleType('obspy')
        ob.__dict__.update(E.loader.stubs['obspy'].__dict__)
        ob.Catalog, ob.Inventory = Catalog, Inventory
        ob.read_events = lambda *a, **k: self.record('read_events', a, k, self.events)
        ob.read_inventory = lambda *a, **k: self.record('read_inventory', a, k, self.inventory)
        mod.obspy = ob
        mod.tqdm = lambda: None
        self.stdout = []
        mod.print = lambda *a, **k: self.stdout.append(a)

        def source(name):
            return lambda *a, **k: self.record(name, a, k, self.streams())
        for n in names:
            setattr(mod, n, source(n))
        mod.init_data = lambda *a, **k: self.record('init_data', a, k, self.provider)
        self.provider = lambda **k: None
        mod.write = lambda *a, **k: self.written(*a, **k)

    def record(self, name, a, k, result):
        self.log.append((name, a, k))
        return result

    def streams(self):
        def make():
            return Item()
        return DList([Gap('front', make, check=self.check), self.rep, Gap('back', make, check=self.check)])

    def check(self, item):
        """end of an iteration over another stream"""
        self.E.prove('others', item.done == self.want)

    def written(self, stream, root, format, type=None):
        (stream if isinstance(stream, Item) else self).done.append(('write', root, format, type))
        if isinstance(stream, Item) and hasattr(stream, 'source'):
            stream.source.done[:] = stream.done

    done = None


def given(E, k):
    """options of the configuration: k = 0 none, 1 tables, 2 tables that name phases too"""
    if k == 0:
        return {}
    d = {o: {'a': E.real(o + '.a'), 'b': SStr.word(o + '.b')} for o in OPTS}
    if k == 2:
        for o in ('options', 'moveout'):
            d[o]['phase'] = SStr.word(o + '.phase')
    return d


def equal_kw(a, b):
    """same keys and equal values"""
    a, b = dict(a.items()), dict(b.items())
    if set(a) != set(b):
        return False
    cs = [veq(a[k], b[k]) for k in a]
    if any(c is False for c in cs):
        return False
    return AND(*[c for c in cs if c is not True])


SEQ = (('calc', ()), ('calc', ('moveout',)), ('moveout', ()), ('data', ()), ('data', ('calc',)), ('data', ('moveout',)),
       ('data', ('calc', 'moveout')), ('data', ('moveout', 'calc')), ('convert', ()), ('stack', ()))


@contract('rf.batch.run_commands', expect=['steps', 'options', 'source', 'source-options', 'written', 'others', 'input',
                                          'provider'],
          cover=['data', 'disc', 'convert', 'stack', 'default'], assumptions=LIB, max_paths=20000)
def commands(E, load):
    """for an arbitrary stream among any others: exactly the requested steps in the requested order with the configured
    options, then written once with the requested format; the reader is called once with events, inventory and options"""
    w = World(E, load)
    mod = w.mod
    cmd, more = SEQ[E.choose(len(SEQ))]
    kw = given(E, E.choose(3))
    conf = {k: dict(v) for k, v in kw.items()}
    phase = SStr.word('phase') if E.choose(2) else None
    mphase = SStr.word('mphase') if E.choose(2) else None
    how = E.choose(3)
    ev = (w.events, 'events.xml', ['events', 'FORMAT'])[how]
    inv = (w.inventory, 'stations.xml', ['stations', 'FORMAT'])[how]
    args = dict(events=ev, inventory=inv, path_in='in', path_out='out', **kw)
    if cmd == 'data':
        if E.choose(2):
            args['get_waveforms'] = w.provider
        else:
            args['data'] = 'source'
            args['plugin'] = 'plugin'
    if phase is not None:
        args['phase'] = phase
    if mphase is not None:
        args['moveout_phase'] = mphase
    fmt = 'Q'
    if E.choose(2):
        fmt = args['format'] = 'H5'
    else:
        E.cover('default')
    if cmd == 'convert':
        args['newformat'] = 'SAC'
    opts = {k: dict(conf.get(k, {})) for k in OPTS}
    if phase is not None:
        opts['options']['phase'] = phase
    if mphase is not None:
        opts['moveout']['phase'] = mphase
    steps = [c for c in (cmd,) + more if c in ('calc', 'moveout', 'stack')]

    def check(done, label):
        E.prove(label, len(done) == len(steps) + 1)
        if len(done) != len(steps) + 1:
            return
        E.prove(label, [d[0] for d in done] == steps + ['write'])
        for d in done[:-1]:
            if d[0] in ('calc', 'moveout'):
                E.prove('options' if label == 'steps' else label,
                        equal_kw(d[1], opts[{'calc': 'rf', 'moveout': 'moveout'}[d[0]]]))
        _, root, f, typ = done[-1]
        E.prove('written' if label == 'steps' else label,
                root == 'out' and f == ('SAC' if cmd == 'convert' else fmt) and typ == ('stack' if cmd == 'stack' else None))
    w.check = lambda item: check(item.done, 'others')
    mod.run_commands(cmd, commands=list(more), **args) if E.choose(2) else mod.run_commands(cmd, more, **args)
    check(w.rep.done, 'steps')
    # input
    names = [x[0] for x in w.log]
    src = [x for x in w.log if x[0].startswith(('iter', '_iter'))]
    E.prove('source', len(src) == 1 and src[0][0] == ('iter_event_data' if cmd == 'data' else 'iter_event_processed_data'))
    _, a, k = src[0]
    k = dict(k)
    k.pop('pbar', None)
    pos = ['events', 'inventory'] + (['get_waveforms'] if cmd == 'data' else ['pin', 'format'])
    full = dict(zip(pos, a), **k)
    E.prove('source', full.pop('events') is (None if cmd == 'stack' else w.events) and full.pop('inventory') is w.inventory)
    if cmd == 'data':
        E.prove('source', full.pop('get_waveforms') is w.provider)
        E.prove('source-options', equal_kw(full, opts['options']))
        if 'data' in args:
            ini = [x for x in w.log if x[0] == 'init_data']
            E.prove('provider', len(ini) == 1)
            k2 = dict(ini[0][2])
            k2.update(zip(('data', 'client_options', 'plugin'), ini[0][1]))
            E.prove('provider', k2['data'] == 'source' and k2['plugin'] == 'plugin' and
                    equal_kw(k2['client_options'], opts['client_options']))
        else:
            E.prove('provider', 'init_data' not in names)
        E.cover('data')
    else:
        E.prove('source', full.pop('pin') == 'in' and full.pop('format') == fmt)
        E.prove('source-options', not full.pop('yield_traces', False) and full == {})
        E.cover('disc')
    if cmd in ('convert', 'stack'):
        E.cover(cmd)
    reads = [x for x in w.log if x[0].startswith('read')]
    if how == 0:
        E.prove('input', reads == [])
    else:
        want = {'read_events': ('events.xml', 'events')[how - 1], 'read_inventory': ('stations.xml', 'stations')[how - 1]}
        if cmd == 'stack':
            want.pop('read_events')
        E.prove('input', sorted(x[0] for x in reads) == sorted(want))
        for n, a, k in reads:
            f = a[1] if len(a) > 1 else k.get('format')
            E.prove('input', a[0] == want[n] and f == (None, 'FORMAT')[how - 1])


@contract('rf.batch.run_commands', expect=['rejected', 'nothing'], cover=['twice', 'unknown', 'three'], assumptions=LIB)
def rejected(E, load):
    """a step named twice and unknown options raise ParseError before anything is read or processed"""
    w = World(E, load)
    mod = w.mod
    case = E.choose(3)
    args = dict(events=w.events, inventory=w.inventory, path_in='in', path_out='out')
    if case == 0:
        cmd, more = (('data', ('calc', 'calc')), ('data', ('moveout', 'moveout')), ('calc', ('moveout', 'moveout')))[E.choose(3)]
        E.cover('twice')
    elif case == 1:
        cmd, more = SEQ[E.choose(len(SEQ))]
        args[('unknown', 'boxbinss', 'filter')[E.choose(3)]] = {}
        E.cover('unknown')
    else:
        cmd, more = 'data', ('calc', 'moveout', 'calc')
        E.cover('three')
    if cmd == 'data':
        args['data'] = 'source'
    try:
        mod.run_commands(cmd, more, **args)
        E.prove('rejected', False)
    except mod.ParseError:
        E.prove('rejected', True)
    E.prove('nothing', w.log == [] and w.rep.done == [])


@contract('rf.batch.run_commands', expect=['strings', 'bins'], cover=['strings', 'bins'], assumptions=LIB)
def texts(E, load):
    """options given as JSON text count as the table they describe (an example text); the box bins are the numbers
    linspace gives for the three values (first, last, number)"""
    w = World(E, load)
    mod = w.mod
    if E.choose(2):
        w.check = lambda item: None
        mod.run_commands('calc', [], events=w.events, inventory=w.inventory, path_in='in', path_out='out',
                         rf='{"deconvolve": "waterlevel", "trim": [-5, 22]}')
        d = w.rep.done
        E.prove('strings', len(d) == 2 and d[0][0] == 'calc' and sorted(d[0][1]) == ['deconvolve', 'trim'])
        E.prove('strings', AND(d[0][1]['deconvolve'] == 'waterlevel', veq(DList(d[0][1]['trim']), DList([-5, 22]))))
        E.cover('strings')
        return
    prof = types.ModuleType('rf.profile')
    calls = []
    boxx, made = object(), object()
    prof.get_profile_boxes = lambda *a, **k: calls.append((a, k)) or boxx
    prof.profile = lambda *a, **k: calls.append((a, k)) or made
    E.loader.modules['rf.profile'] = prof
    w.done = []
    a, b = E.real('a'), E.real('b')
    n = 2 + E.choose(3)
    po = {'crs': SStr.word('crs')}
    c0 = E.real('lat')
    mod.run_commands('profile', (), events=w.events, inventory=w.inventory, path_in='in', path_out='out',
                     boxes={'latlon0': c0}, boxbins=[a, b, n], profile=po, format='SAC')
    E.prove('bins', len(calls) == 2 and calls[0][0] == () and sorted(calls[0][1]) == ['bins', 'latlon0'])
    bins = calls[0][1]['bins']
    E.prove('bins', AND(veq(calls[0][1]['latlon0'], c0), *[veq(bins[i] * (n - 1), a * (n - 1) + (b - a) * i) for i in range(n)]))
    E.prove('bins', bins.length() == n)
    src = [x for x in w.log if x[0].startswith('iter')]
    E.prove('bins', len(src) == 1 and src[0][0] == 'iter_event_processed_data' and src[0][2].get('yield_traces') is True)
    args, k = calls[1]
    E.prove('bins', len(args) == 2 and args[1] is boxx and equal_kw(k, po))
    E.prove('bins', w.done == [('write', 'out', 'SAC', 'profile')])
    E.cover('bins')


@contract('rf.batch.run', expect=['merged', 'command', 'parsed', 'none', 'error'],
          cover=['file', 'nofile', 'bad', 'missing'],
          assumptions=LIB + ['json.load gives the table of the configuration file'])
def configuration(E, load):
    """the options of the command line win over those of the configuration file; without a configuration only they count;
    an unreadable configuration stops before anything is processed"""
    w = World(E, load)
    mod = w.mod
    calls, opened, loaded = [], [], []
    mod.run_commands = lambda *a, **k: calls.append((a, k))
    keys = ('events', 'phase', 'format', 'rf', 'moveout')
    conf = {k: SStr.word('conf.' + k) for k in keys if k != 'moveout'}
    cli = {}
    for k in keys[1:]:
        if E.choose(2):
            cli[k] = SStr.word('cli.' + k)
    cmd = ('calc', 'data', 'print')[E.choose(3)]
    if cmd == 'print':
        cli['objects'] = [('events', 'stations', 'file.QHD')[E.choose(3)]]
    what = E.choose(4)

    class File(object):
        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

    def open_(name, *a, **k):
        opened.append(name)
        if what == 3:
            raise IOError('no such file')
        return File()
    mod.open = open_
    js = types.ModuleType('json')
    js.JSONDecoder = stubs._Json.JSONDecoder

    def load_(f, cls=None, **k):
        loaded.append((f, cls))
        if what == 2:
            raise ValueError('bad')
        return stubs.DDict(dict(conf).items()) if E.choose(2) else dict(conf)
    js.load = load_
    mod.json = js
    name = ('', None, 'None', 'null')[E.choose(4)] if what == 1 else 'conf.json'
    args = dict(cli)
    mod.run(cmd, conf=name, **args) if E.choose(2) else mod.run(cmd, name, **args)
    needless = cmd == 'print' and cli['objects'][0] not in ('events', 'stations')
    if what == 1 or needless:
        E.prove('none', opened == [] and len(calls) == 1 and equal_kw(calls[0][1], cli) and calls[0][0] == (cmd,))
        E.cover('nofile')
        return
    E.prove('parsed', opened == ['conf.json'])
    if what in (2, 3):
        E.prove('error', calls == [])
        E.cover('bad' if what == 2 else 'missing')
        return
    E.prove('parsed', len(loaded) == 1 and isinstance(loaded[0][0], File) and loaded[0][1] is mod.ConfigJSONDecoder)
    E.prove('command', len(calls) == 1 and calls[0][0] == (cmd,))
    E.prove('merged', equal_kw(calls[0][1], dict(conf, **cli)))
    E.cover('file')
