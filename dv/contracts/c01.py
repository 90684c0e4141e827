"""C01: header metadata survives writing and reading: rf.rfstream.RFTrace._write_format_specific_header,
_read_format_specific_header, RFTrace.__init__, RFStream.__init__, read_rf, and the mapping tables"""
import string
from dv import stubs
from dv.contracts.lib import *

CONTRACTS, contract = registry()

HEADS = NUMBER[:-1] + TIME + ('type', 'phase', 'moveout')
FILES = ['a SAC or Q file keeps the entries of the format header (stats.sac, stats.sh) that are there when it is '
         'written; an entry that is not there is missing after reading, or for SAC has the value -12345 or a text with '
         '-12345 (to the resolution of the format: numbers are mathematical reals here)',
         'values whose text contains -12345 are excluded (SAC cannot store them)',
         'obspy_to_sac_header returns a new header with the old entries and a reference time, get_sac_reftime gives it',
         'json.loads(json.dumps(x)) is x']


class Fields(stubs.AttribDict):
    """header of one file format: one known entry at most; any other entries, which must not be looked at"""

    def own(self, field):
        object.__setattr__(self, 'field', field)
        return self

    def _find(self, key):
        f = self.__dict__.get('field')
        if f is not None and not (isinstance(key, str) and key in (f, '#R', 'COMMENT')):
            raise core.Unsupported('entry %s besides %s' % (key, f))
        return stubs.AttribDict._find(self, key)
    _own = stubs.AttribDict._own + ('field',)

    def __iter__(self):
        raise core.Unsupported('all entries of the format header')
    keys = values = items = length = __len__ = __bool__ = copy = __iter__

    def __deepcopy__(self, memo):
        d = Fields()
        d.ks, d.vs = list(self.ks), list(self.vs)
        return d.own(self.field)


class Comment(DDict):
    """entries of the COMMENT field: one known, and other ones or none"""

    def rest(self, n, heads):
        object.__setattr__(self, 'n', n)
        object.__setattr__(self, 'heads', heads)
        return self

    def _find(self, key):
        if not (isinstance(key, str) and key in self.heads):
            raise core.Unsupported('entry %s of the comment' % (key,))
        return DDict._find(self, key)

    def length(self):
        return self.n + len(self.ks)

    def __len__(self):
        n = self.length()
        if isinstance(n, int):
            return n
        raise core.Unsupported('number of entries of the comment')

    def __bool__(self):
        return bool(lift(self.length()) > 0)

    def __iter__(self):
        raise core.Unsupported('all entries of the comment')
    keys = values = items = __iter__

    def __deepcopy__(self, memo):
        d = Comment()
        d.rest(self.n, self.heads)
        d.ks, d.vs = list(self.ks), list(self.vs)
        return d


def libs(E):
    R = SUTC(E.real('reftime'))

    def obspy_to_sac_header(stats, keep_sac_header=True):
        old = stats['sac'] if 'sac' in stats else None
        need(keep_sac_header is True and (old is None or isinstance(old, Fields)), 'obspy_to_sac_header')
        new = Fields()
        if old is not None:
            new.ks, new.vs = list(old.ks), list(old.vs)
        new._put('#R', R)
        # other entries than those mapped to headers
        return new.own(E.own_field)

    def get_sac_reftime(header):
        need(isinstance(header, Fields), 'get_sac_reftime')
        return header['#R']
    util = stubs._module('obspy.io.sac.util', obspy_to_sac_header=obspy_to_sac_header, get_sac_reftime=get_sac_reftime)
    E.loader.stubs = dict(E.loader.stubs, **{'obspy.io.sac.util': util})


def tables(rs, fmt):
    h, f = rs._HEADERS, rs._FORMATHEADERS[fmt]
    need(all(isinstance(x, (tuple, list)) and all(isinstance(y, str) for y in x) for x in (h, f)), 'mapping tables')
    return list(h), list(f)


@contract('rf.rfstream (module)', expect=['documented', 'aligned', 'distinct', 'index'], cover=['end'])
def mapping(E, load):
    """every documented header has an entry in the tables of both formats; no two headers share a field, except for the
    fields that hold text of several headers in the COMMENT of Q; the HDF5 paths of two traces that differ in id, event
    or window differ"""
    rs = load('rf.rfstream')
    for fmt in ('sac', 'sh'):
        h, f = tables(rs, fmt)
        E.prove('documented', all(x in h for x in HEADS))
        E.prove('aligned', len(h) == len(f) and len(set(h)) == len(h))
        own = [x for x in f if not (fmt == 'sh' and x == 'COMMENT')]
        E.prove('distinct', len(set(own)) == len(own))
    need(isinstance(rs._H5INDEX, dict) and all(isinstance(v, str) for v in rs._H5INDEX.values()), 'HDF5 paths')

    def names(t):
        return {n.split('.')[0].split('[')[0] for _, n, _, _ in string.Formatter().parse(t) if n}
    E.prove('index', {'network', 'station', 'location', 'channel', 'event_time', 'starttime'} <= names(rs._H5INDEX['rf']))
    E.prove('index', {'channel', 'box_pos'} <= names(rs._H5INDEX['profile']))
    E.cover('end')


def write_loop(E, pair, comment, heads, state, expect):
    def loop(loc, it, st):
        items = list(parts_of(it)) if hasattr(it, '__parts__') else list(it)
        need(all(isinstance(x, tuple) and len(x) == 2 for x in items) and pair in items, 'loop over the mapping')
        need(items == expect, 'loop over the mapping')
        if comment is not None:
            ts = [v for v in loc.values() if type(v) is DDict and not v.ks]
            need(len({id(v) for v in ts}) == 1, 'one empty table for the comment')
            # headers visited before and after: any of them may be in the comment
            ts[0].__class__ = Comment
            ts[0].rest(comment, heads)
        state.append('entered')
        yield pair
        state.append('left')
    return loop


def read_loop(E, pair, state, expect):
    def loop(loc, it, st):
        items = list(parts_of(it)) if hasattr(it, '__parts__') else list(it)
        need(items == expect, 'loop over the mapping')
        state.append('entered')
        yield pair
        state.append('left')
    return loop


def symbolic(E, load, fmtname, k, old=True):
    """trace whose header number k may be set; others are not looked at"""
    rs = load('rf.rfstream')
    fmt = {'SAC': 'sac', 'Q': 'sh'}[fmtname.upper()]
    h, f = tables(rs, fmt)
    need(k < len(h), 'length of the table')
    head, field = h[k], f[k]
    E.own_field = field
    tr = trace(E, rs.RFTrace, 'tr', present=(), unknown=(head,))
    if old:
        d = Fields()
        if E.choose(2):
            d._put(field, E.real('oldvalue') if head in NUMBER + TIME else SStr.word('oldtext'))
        tr.stats._put(fmt, d.own(field))
    return rs, fmt, tr, head, field, list(zip(h, f))


@contract('rf.rfstream.RFTrace._write_format_specific_header', 'rf.rfstream.RFTrace._read_format_specific_header',
          expect=['every', 'kept', 'value', 'absent', 'memory', 'samples', 'others', 'read-others'],
          cover=['set', 'unset', 'comment', 'no-comment', 'sh_compat', 'text', 'time', 'null'], assumptions=FILES,
          max_paths=9000)
def roundtrip(E, load):
    """for an arbitrary header, any state of all others, and any older content of the format header: after writing and
    reading the header has its value if it was set and is missing if it was not (Q with sh_compat: the headers in the
    COMMENT are dropped as documented).  Loop rule: an arbitrary iteration; it touches only its own header and field,
    those of the COMMENT only the entry of its header"""
    libs(E)
    name = ('SAC', 'sac', 'Q', 'q')[E.choose(4)]
    k = E.choose(len(HEADS))
    rs, fmt, tr, head, field, pairs = symbolic(E, load, name, k, old=bool(E.choose(2)))
    shared = [a for a, b in pairs if b == 'COMMENT'] if fmt == 'sh' else []
    compat = fmt == 'sh' and E.choose(2)
    rest = None
    if fmt == 'sh':
        rest = (0, E.int('others', 1))[E.choose(2)]
    state = []
    snap = Snap(tr)
    E.for_specs = {'rf.rfstream.RFTrace._write_format_specific_header:0':
                   write_loop(E, (head, field), rest, shared, state, pairs),
                   'rf.rfstream.RFTrace._read_format_specific_header:0': read_loop(E, (head, field), state, pairs)}
    E.contains_hook = lambda c, item: False if item == '-12345' else None
    if fmt == 'sh' and 'sh' not in tr.stats:
        # created by the function: an ordinary dictionary
        d0 = None
    if compat:
        tr._write_format_specific_header(name, sh_compat=True)
    elif E.choose(2):
        tr._write_format_specific_header(name)
    else:
        tr._write_format_specific_header(name, sh_compat=False)
    E.prove('every', state == ['entered', 'left'])
    E.prove('memory', snap.headers(tr.stats, skip=(fmt,)))
    E.prove('samples', snap.samples(tr.data))
    was = head in tr.stats
    value = tr.stats[head] if was else None
    # the file
    E.prove('others', fmt in tr.stats and isinstance(tr.stats[fmt], stubs.AttribDict))
    w = tr.stats[fmt]
    E.prove('others', all(x in (field, '#R') or x == 'COMMENT' for x in w.ks))
    got = stubs.Stats()
    for key in ('network', 'station', 'location', 'channel', 'sampling_rate', 'starttime', 'npts'):
        got._put(key, tr.stats[key])
    got._put('_format', name.upper())
    r = Fields()
    if '#R' in w.ks:
        r._put('#R', w.vs[w.ks.index('#R')])
    if field in w.ks:
        r._put(field, w.vs[w.ks.index(field)])
    elif fmt == 'sac':
        null = E.choose(3)
        if null:
            r._put(field, (-12345.0 if head in NUMBER + TIME else '-12345', '-12345  ')[null - 1])
            E.cover('null')
    got._put(fmt, r.own(field))
    t2 = rs.RFTrace.__new__(rs.RFTrace)
    core.newborn(t2)
    object.__setattr__(t2, 'log', [])
    object.__setattr__(t2, 'stats', got)
    object.__setattr__(t2, 'data', tr.data)
    s2 = Snap(t2)
    del state[:]
    t2._read_format_specific_header()
    E.prove('every', state == ['entered', 'left'])
    E.prove('read-others', s2.headers(got, skip=(head,)))
    E.prove('samples', s2.samples(t2.data))
    if was and not (compat and field == 'COMMENT'):
        E.prove('kept', head in got)
        E.prove('value', veq(got[head], value))
        E.prove('value', isinstance(got[head], SUTC) == isinstance(value, SUTC))
        E.cover('set')
    else:
        E.prove('absent', head not in got)
        E.cover('unset')
    E.cover('time' if head in TIME else 'text' if head in TEXT else 'end')
    if fmt == 'sh':
        E.cover('sh_compat' if compat else 'comment' if 'COMMENT' in w.ks else 'no-comment')


@contract('rf.rfstream.RFTrace._write_format_specific_header', 'rf.rfstream.RFTrace._read_format_specific_header',
          expect=['untouched'], cover=['write', 'read'])
def other_formats(E, load):
    """H5 and formats without a mapping: headers are left alone, nothing is read from a trace without file format"""
    rs = load('rf.rfstream')
    E.own_field = None
    name = ('H5', 'h5', 'MSEED')[E.choose(3)]
    tr = trace(E, rs.RFTrace, 'tr', present=(), unknown=())
    if E.choose(2):
        snap = Snap(tr)
        tr._write_format_specific_header(name)
        E.cover('write')
    else:
        if E.choose(2):
            tr.stats._put('_format', name)
        snap = Snap(tr)
        tr._read_format_specific_header()
        E.cover('read')
    E.prove('untouched', AND(snap.headers(tr.stats), snap.samples(tr.data), tr.log == []))


@contract('rf.rfstream.RFTrace.__init__', expect=['id', 'headers', 'samples', 'read', 'input'],
          cover=['split', 'plain', 'header', 'trace'],
          assumptions=['Trace.__init__ of obspy copies the header and takes the samples'])
def init(E, load):
    """a trace read from a Q file gets network, station and location back from the four-part station name, all other
    headers and the samples are those handed in; the format header is read once, with the final station"""
    rs = load('rf.rfstream')
    name = ('Q', 'q', 'SAC', 'H5', None)[E.choose(5)]
    src = trace(E, rs.RFTrace, 'src', present=('onset',), unknown=('event_id', 'phase'))
    src.__class__ = stubs.Trace
    st = src.stats
    parts = [SStr.word(x) for x in ('net', 'sta', 'loc')]
    split = bool(E.choose(2)) if name in ('Q', 'q') else False
    if name is not None:
        st._put('_format', name)
    if split:
        st._put('station', SStr.make([parts[0], '.', parts[1], '.', parts[2], '.', st['channel']]))
        for k in ('network', 'location'):
            st._put(k, '')
    'event_id' in st, 'phase' in st
    snap = Snap(src)
    calls = []

    def read(self, format=None):
        calls.append((self, format, self.stats['station']))
    rs.RFTrace._read_format_specific_header = read
    if E.choose(2):
        tr = rs.RFTrace(trace=src)
        E.cover('trace')
    else:
        tr = rs.RFTrace(src.data, src.stats)
        E.cover('header')
    got = tr.stats
    if split:
        E.prove('id', AND(veq(got['network'], parts[0]), veq(got['station'], parts[1]), veq(got['location'], parts[2]),
                          veq(got['channel'], st['channel'])))
        E.cover('split')
    else:
        E.prove('id', AND(*[veq(got[k], st[k]) for k in ('network', 'station', 'location', 'channel')]))
        E.cover('plain')
    for k in ('starttime', 'sampling_rate', 'delta', 'npts', 'onset'):
        E.prove('headers', veq(got[k], st[k]))
    for k in ('event_id', 'phase', '_format'):
        E.prove('headers', (k in got) == (k in st) and (k not in st or veq(got[k], st[k])))
    E.prove('samples', snap.samples(tr.data))
    E.prove('read', len(calls) == 1 and calls[0][0] is tr)
    E.prove('read', calls[0][1] is None or calls[0][1] == name)
    if split:
        E.prove('read', veq(calls[0][2], parts[1]))
    E.prove('input', AND(snap.headers(src.stats), snap.samples(src.data)))


@contract('rf.rfstream.read_rf', 'rf.rfstream.RFStream.__init__', expect=['file', 'type', 'once', 'order', 'wrapped'],
          cover=['list', 'single', 'none', 'rf', 'plain'], assumptions=['obspy.read returns the traces of the file'])
def reading(E, load):
    """read_rf hands path, format and options to obspy and wraps every trace once, in order; traces that are RFTrace
    objects already are kept"""
    rs = load('rf.rfstream')
    made = []

    class Wrapped(rs.RFTrace):
        def __init__(self, data=None, header=None, trace=None):
            need(data is None and header is None, 'wrapped')
            core.newborn(self)
            object.__setattr__(self, 'of', trace)
    rs.RFTrace = Wrapped
    already = E.choose(2)

    def new(base):
        t = trace(E, Wrapped, base, present=(), unknown=())
        if not already:
            t.__class__ = stubs.Trace
        return t
    tr = new('tr')
    src = stubs.Stream()
    src.traces = DList([Gap('front', lambda: new('front')), tr, Gap('back', lambda: new('back'))])
    case = E.choose(4)
    if case == 0:
        calls = []

        def read(*a, **k):
            calls.append((a, k))
            return src
        rs.read = read
        fmt = (None, 'SAC', 'Q', 'H5')[E.choose(4)]
        how = E.choose(2)
        out = rs.read_rf('path', fmt, headonly=True) if how else rs.read_rf('path', format=fmt, headonly=True)
        a, k = calls[0] if calls else ((), {})
        E.prove('file', len(calls) == 1)
        k = dict(k)
        path = a[0] if a else k.pop('pathname_or_url', None)
        f = a[1] if len(a) > 1 else k.pop('format', None)
        E.prove('file', path == 'path' and f == fmt and k == {'headonly': True})
        E.cover('list')
    elif case == 1:
        out = rs.RFStream(src if E.choose(2) else src.traces)
    elif case == 2:
        out = rs.RFStream(tr)
        E.cover('single')
    else:
        out = rs.RFStream() if E.choose(2) else rs.RFStream([])
        E.prove('type', type(out) is rs.RFStream)
        E.prove('once', len(parts_of(out.traces)) == 0)
        E.cover('none')
        raise core.PathEnd()
    E.prove('type', type(out) is rs.RFStream)
    ps = list(parts_of(out.traces))
    single = case == 2
    E.prove('once', len(ps) == (1 if single else 3))
    t = ps[0 if single else 1]
    E.prove('wrapped', t is tr if already else type(t) is Wrapped and t.of is tr)
    if not single:
        E.prove('order', all(isinstance(ps[i], Gap) for i in (0, 2)))
    else:
        E.prove('order', True)
    E.cover('rf' if already else 'plain')
