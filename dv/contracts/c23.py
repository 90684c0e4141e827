"""C23: rf.batch.write, rf.batch.iter_event_processed_data, rf.batch._iter_profile, rf.util.iter_event_metadata"""
from dv import stubs
from dv.contracts.lib import *
from dv.contracts import c03
from dv.contracts.c06 import Stations, Bar

CONTRACTS, contract = registry()
LIB = ['writing one stream or trace to one file enters by its contract (C01, C02); here the path is recorded',
       'a rendered time (to the second) is an injective function of the time cut to seconds',
       'network, station, location and channel have no dots; a channel has three letters']
KINDS = (None, 'stack', 'profile')


def atoms(text):
    """pieces of a path"""
    need(isinstance(text, (str, SStr)), 'path')
    return list(text.pieces) if isinstance(text, SStr) else [text]


def shows(path, value):
    """the value is part of the path, as a piece of its own"""
    out = False
    for p in atoms(path):
        for q in atoms(value):
            if not isinstance(q, str) and not isinstance(p, str) and p.kind == q.kind and holds(p.eq(q)):
                out = True
    return out


def shows_time(path, t):
    for p in atoms(path):
        if not isinstance(p, str) and p.kind.startswith('fmt:') and isinstance(p.term, core.OpaqueObj) and \
                p.term.kind == 'datetime' and holds(veq(p.term.args[0], t)):
            return all(c in p.kind for c in ('%Y', '%m', '%d', '%H', '%M', '%S'))
    return False


def member(E, cls, base, unique=True):
    chan = SStr([SStr.char(base + '.c%d' % i).pieces[0] for i in range(3)])
    tr = trace(E, cls, base, present=('onset', 'event_time', 'box_pos'), unknown=(), values={'channel': chan})
    object.__setattr__(tr.stats, 'open_', None)
    return tr


def stored(E, mod, rs, s, root, fmt, kind, check=None):
    """call write; returns the list of writes and of created directories"""
    writes, dirs = [], []
    mod._create_dir = lambda f: dirs.append(f)

    def stream_write(self, filename, format, **kw):
        writes.append((self, filename, format, kw))

    def trace_write(self, filename, format, **kw):
        writes.append((self, filename, format, kw))
    rs.RFStream.write = stream_write
    rs.RFTrace.write = trace_write
    args = () if kind is None and E.choose(2) else (kind,)
    mod.write(s, root, fmt, *args)
    return writes, dirs


@contract('rf.batch.write', expect=['all', 'own-name', 'root', 'format', 'different', 'directory', 'untouched', 'append'],
          cover=['Q', 'SAC', 'H5', 'stack', 'profile', 'first', 'later'], assumptions=LIB, max_paths=6000)
def naming(E, load):
    """for an arbitrary trace among any others, each format and kind of result: SAC: the trace itself is written once, to a
    name which begins with the root and shows its own network, station, location and channel (and event time, or, for
    profiles, component and box position); Q and H5: the stream with all traces is written once, to a name which shows
    the station and event time of its traces (Q) or is the root (H5)"""
    mod, rs = load('rf.batch'), load('rf.rfstream')
    fmt = ('Q', 'SAC', 'H5', 'q', 'sac', 'h5')[E.choose(6)]
    FMT = fmt.upper()
    kind = KINDS[E.choose(3)]
    later = E.choose(2)
    a = member(E, rs.RFTrace, 'a')
    tr = member(E, rs.RFTrace, 'b') if later else a
    # traces of one stream of the batch tool belong to one event and station (Q: one file)
    if later and FMT != 'SAC':
        for k in ('network', 'station', 'location', 'event_time'):
            tr.stats._put(k, a.stats[k])
    new = lambda: member(E, rs.RFTrace, 'other')
    parts = [a, Gap('front', new), tr, Gap('back', new)] if later else [a, Gap('back', new)]
    s = stream(rs.RFStream, parts)
    snap = Snap(tr)
    root = SStr.word('root')
    if later:
        # another file layout of the first trace must not matter
        E.cover('later')
    else:
        E.cover('first')
    writes, dirs = stored(E, mod, rs, s, root, fmt, kind)
    if FMT == 'SAC':
        mine = [w for w in writes if w[0] is tr]
        E.prove('all', len(mine) == 1)
    else:
        mine = [w for w in writes if w[0] is s]
        E.prove('all', len(writes) == 1 and len(mine) == 1)
    if not mine:
        return
    _, path, f, kw = mine[0]
    E.prove('format', f.upper() == FMT)
    first = atoms(path)[0]
    E.prove('root', not isinstance(first, str) and holds(first.eq(root.pieces[0])))
    st = tr.stats
    if FMT == 'H5':
        E.prove('own-name', len([p for p in atoms(path) if not isinstance(p, str)]) == 1)
        E.prove('append', kw.get('mode') == 'a')
    elif kind == 'profile':
        if FMT == 'SAC':
            E.prove('own-name', shows(path, st['channel'][2]))
            E.prove('own-name', any(not isinstance(p, str) and isinstance(p.term, SNum) and holds(veq(p.term, st['box_pos'])) for p in atoms(path)))
    else:
        E.prove('own-name', all(shows(path, st[k]) for k in ('network', 'station', 'location')))
        if kind is None:
            E.prove('own-name', shows_time(path, st['event_time']))
        if FMT == 'SAC':
            E.prove('own-name', all(shows(path, st['channel'][i]) for i in range(3)))
    if FMT == 'SAC' and later:
        # the same rule names the first trace
        other = [w for w in writes if w[0] is a]
        E.prove('different', len(other) == 1)
        E.prove('different', not same_text(other[0][1], path))
    # the directory of the file exists: it is created for this or a file with the same root and station
    E.prove('directory', len(dirs) >= 1)
    E.prove('directory', any(same_text(d, w[1]) for d in dirs for w in writes))
    E.prove('untouched', AND(snap.headers(tr.stats), snap.samples(tr.data)))
    E.prove('untouched', len(parts_of(s.traces)) == len(parts) and all(x is y for x, y in zip(parts_of(s.traces), parts)))
    E.cover(FMT)
    if kind:
        E.cover(kind)


@contract('rf.batch.write', expect=['nothing'], cover=['end'])
def nothing(E, load):
    """an empty stream writes nothing"""
    mod, rs = load('rf.batch'), load('rf.rfstream')
    w, d = stored(E, mod, rs, stream(rs.RFStream, []), SStr.word('root'), ('Q', 'SAC', 'H5')[E.choose(3)], KINDS[E.choose(3)])
    E.prove('nothing', w == [] and d == [])
    E.cover('end')


def wildcard(path, st, time):
    """the path of a trace with ? for the letters of its channel, and * for the event time if there is none"""
    chan = [p for c in range(3) for p in atoms(st['channel'][c])]
    out = []
    for p in atoms(path):
        if not isinstance(p, str) and any(p is c for c in chan):
            p = '?'
        elif not isinstance(p, str) and p.kind.startswith('fmt:') and not time:
            p = '*'
        out.append(p)
    return SStr.make(out)


class BrokenFile(Exception):
    pass


@contract('rf.batch.iter_event_processed_data', 'rf.batch.write', expect=['read', 'match', 'select', 'delivered', 'survives',
                                                                       'others'],
          cover=['Q', 'SAC', 'H5', 'broken', 'traces', 'streams', 'no-events'], assumptions=LIB + [
              'read_rf gives the traces of the files which match the pattern, or raises an Exception',
              'iter_event_metadata enters by its contract'], max_paths=6000)
def reading(E, load):
    """for an arbitrary station (and event) among any others: the file written for its traces is read once, by the same name
    with a wildcard for the channel (and the event time without events), H5 with the metadata as selection; its traces
    are delivered once, as a stream or one by one; an unreadable file is skipped"""
    mod, rs = load('rf.batch'), load('rf.rfstream')
    fmt = ('Q', 'SAC', 'H5')[E.choose(3)]
    time = bool(E.choose(2))
    yt = bool(E.choose(2))
    broken = E.choose(2)
    tr = member(E, rs.RFTrace, 'a')
    root = SStr.word('root')
    src = stream(rs.RFStream, [tr])
    writes, _ = stored(E, mod, rs, src, root, fmt, None)
    need(len(writes) == 1, 'one file')
    path = writes[0][1]

    def meta(st):
        d = DDict([('network', st['network']), ('station', st['station']), ('location', st['location']),
                   ('channel', SStr(list(atoms(st['channel']))[:2] + ['?']))])
        if time:
            d._put('event_time', st['event_time'])
        return d
    main = meta(tr.stats)
    asked = dict(main.items())

    def other():
        return meta(member(E, rs.RFTrace, 'other').stats)
    events, inventory = object(), object()
    calls, reads = [], []

    def metas(ev, inv, pbar=None):
        calls.append((ev, inv, pbar))
        return DList([Gap('before', other), main, Gap('behind', other)])
    mod.iter_event_metadata = metas
    content = [Gap('traces1', lambda: member(E, rs.RFTrace, 'x')), tr, Gap('traces2', lambda: member(E, rs.RFTrace, 'y'))]

    def of_main(path_, kw):
        if fmt == 'H5':
            sel = kw.get('readonly')
            need(isinstance(sel, dict), 'selection')
            return all(holds(veq(sel[k], asked[k])) for k in ('network', 'station', 'location') if k in sel)
        return shows(path_, main_words[0]) and shows(path_, main_words[1]) and shows(path_, main_words[2])
    main_words = [tr.stats[k] for k in ('network', 'station', 'location')]

    def read_rf(path_, format=None, **kw):
        if of_main(path_, kw):
            reads.append((path_, format, kw, dict(kw['readonly'].items()) if 'readonly' in kw else None))
            if broken:
                raise BrokenFile()
            return stream(rs.RFStream, list(content))
        # other stations: nothing to read or anything
        k = E.choose(2)
        if k:
            raise BrokenFile()
        return stream(rs.RFStream, [])
    mod.read_rf = read_rf
    bar = Bar()
    got, pieces = [], []
    try:
        for x in mod.iter_event_processed_data(events, inventory, root, fmt, yield_traces=yt, pbar=bar):
            if yt:
                if x is tr:
                    got.append(x)
                else:
                    E.prove('others', isinstance(x, rs.RFTrace))
            else:
                ps = list(parts_of(x.traces))
                if any(p is tr for p in ps):
                    E.prove('delivered', len(ps) == 3 and ps[1] is tr and ps[0] is content[0] and ps[2] is content[2])
                    got.append(x)
                else:
                    E.prove('others', isinstance(x, rs.RFStream) and not ps)
    except BrokenFile:
        E.prove('survives', False)
        return
    E.prove('survives', True)
    E.prove('others', True)
    E.prove('read', calls == [(events, inventory, bar)] and len(reads) == 1)
    if len(reads) != 1:
        return
    p, f, kw, sel = reads[0]
    E.prove('read', f == fmt)
    if fmt == 'H5':
        E.prove('match', same_text(p, path))
        want = {k: asked[k] for k in ('network', 'station', 'location', 'event_time') if k in asked}
        E.prove('select', set(sel) == set(want) and AND(*[veq(sel[k], want[k]) for k in want]))
    else:
        E.prove('match', same_text(p, wildcard(path, tr.stats, time)))
        E.prove('select', kw == {})
    E.prove('delivered', len(got) == (0 if broken else 1))
    E.cover(fmt)
    E.cover('broken' if broken else 'traces' if yt else 'streams')
    if not time:
        E.cover('no-events')


@contract('rf.batch._iter_profile', expect=['match'], cover=['Q', 'SAC', 'H5'], assumptions=LIB)
def profile(E, load):
    """a stored profile is read by the name it was written with (any component and box position)"""
    mod, rs = load('rf.batch'), load('rf.rfstream')
    fmt = ('Q', 'SAC', 'H5')[E.choose(3)]
    root = SStr.word('root')
    tr = member(E, rs.RFTrace, 'a')
    writes, _ = stored(E, mod, rs, stream(rs.RFStream, [tr]), root, fmt, 'profile')
    need(len(writes) == 1, 'one file')
    out = []
    for p in atoms(writes[0][1]):
        if not isinstance(p, str) and any(p is c for c in atoms(tr.stats['channel'])):
            p = '?'
        elif not isinstance(p, str) and isinstance(p.term, SNum) and holds(veq(p.term, tr.stats['box_pos'])):
            p = '*'
        out.append(p)
    reads = []
    answer = object()
    mod.read_rf = lambda path, *a, **k: reads.append(path) or answer
    got = list(mod._iter_profile(root, fmt))
    E.prove('match', len(reads) == 1 and same_text(reads[0], SStr.make(out)) and got == [answer])
    E.cover(fmt)


@contract('rf.util.iter_event_metadata', expect=['once', 'fields', 'time', 'others'], cover=['events', 'none'],
          assumptions=['_get_stations enters by its contract (C06)', 'a station table has different keys'])
def metadata(E, load):
    """every station, or pair of an event and a station, gives one set of metadata: the four fields of the seed id and the
    origin time of the event"""
    mod = load('rf.util')
    tab = Stations([])
    tab.table, tab.gaps = [], {}
    tab.seed = tab.new('S')
    inventory = object()
    asked = []
    mod._get_stations = lambda inv: asked.append(inv) or tab
    new = lambda: c03.event(E, {'origins': 0, 'magnitudes': 0})
    E0 = c03.event(E, {'origins': E.choose(2), 'magnitudes': 0})
    events = DList([Gap('events_before', new), E0, Gap('events_behind', new)]) if E.choose(2) else None
    bar = Bar() if E.choose(2) else None
    mine = []
    for m in mod.iter_event_metadata(events, inventory, pbar=bar) if bar else mod.iter_event_metadata(events, inventory):
        own = same_text(SStr.make([m['network'], '.', m['station'], '.', m['location'], '.', m['channel']]), tab.seed)
        if events is not None:
            E.prove('others', 'event_time' in m)
            own = own and m['event_time'] is E0.used['time']
        if own:
            mine.append(m)
    E.prove('others', True)
    E.prove('once', len(mine) == 1 and asked == [inventory])
    if len(mine) == 1:
        m = mine[0]
        E.prove('fields', sorted(m.keys()) == sorted(['network', 'station', 'location', 'channel'] +
                                                     (['event_time'] if events is not None else [])))
        E.prove('time', True if events is None else veq(m['event_time'], E0.used['time']))
    E.cover('none' if events is None else 'events')
