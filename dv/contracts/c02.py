"""C02: rf.rfstream.RFStream.write and RFTrace.write leave the stream and the HDF5 index as they were"""
from dv import stubs
from dv.contracts.lib import *

CONTRACTS, contract = registry()

LIB = ['Stream.write of obspy writes the traces it is called with and does not change them; it may raise any exception',
       'obspyh5.set_index sets the module variable _INDEX',
       'RFTrace._write_format_specific_header enters by its contract (C01): it changes at most the entry stats.sac or '
       'stats.sh, and is called while id and headers are those of the trace']
FORMATS = ('SAC', 'sac', 'Q', 'q', 'H5', 'h5', 'MSEED')
TYPES = (None, 'rf', 'profile', 'other')


class WriterError(Exception):
    pass


@contract('rf.rfstream.RFStream.write', expect=['headers', 'id-written', 'options', 'stream', 'id', 'kept', 'samples',
                                                'index', 'index-used', 'raised', 'once', 'objects'],
          cover=['done', 'failed', 'Q', 'H5-rf', 'H5-profile', 'H5-other', 'first', 'later'], assumptions=LIB,
          max_paths=9000)
def write(E, load):
    """for an arbitrary trace among any others: the format header is prepared once, before the writer is called once with
    the stream, path, format and options; for Q the station is the trace id while the writer runs; for H5 the index is the
    one for the type of the stream; afterwards, also when the writer fails, station, all other headers, samples and the
    index are what they were, and the writer's exception arrives"""
    rs = load('rf.rfstream')
    name = FORMATS[E.choose(len(FORMATS))]
    FMT = name.upper()
    typ = TYPES[E.choose(4)] if FMT == 'H5' else None
    fails = E.choose(2)
    later = E.choose(2)
    state = dict(written=False, prepared=[])
    mine = {}

    def make(base):
        keys = ('onset',)
        t = trace(E, rs.RFTrace, base, present=keys, unknown=('event_time', 'phase', 'sac', 'sh'))
        if typ is not None:
            t.stats._put('type', typ)
        sta = t.stats['station']
        mine[id(t)] = (t, sta)
        if state['written'] and FMT == 'Q':
            t.stats._put('station', t.id)
        return t

    def check(t):
        """end of an iteration over the other traces"""
        if FMT == 'Q' and not state['written']:
            u, sta = mine[id(t)]
            E.prove('id-written', veq(t.stats['station'], SStr.make(
                [t.stats['network'], '.', sta, '.', t.stats['location'], '.', t.stats['channel']])))
        elif FMT == 'Q':
            E.prove('id', veq(t.stats['station'], mine[id(t)][1]))
        else:
            E.prove('id', veq(t.stats['station'], mine[id(t)][1]))
    tr = make('tr')
    first = tr if not later else make('first')
    'event_time' in first.stats, 'phase' in tr.stats, 'event_time' in tr.stats
    ids = tr.id
    snap = Snap(tr)
    gap = lambda base: Gap(base, lambda: make(base), check=check)
    parts = [tr, gap('back')] if not later else [first, gap('front'), tr, gap('back')]
    s = stream(rs.RFStream, parts)
    kw = {} if E.choose(2) else dict(mode='a')
    compat = (None, False, True)[E.choose(3)] if FMT == 'Q' else None
    H5 = stubs._module('obspyh5')
    H5._INDEX = old = SStr.word('index')

    def set_index(index='standard'):
        H5._INDEX = index
    H5.set_index = set_index
    E.loader.stubs = dict(E.loader.stubs, obspyh5=H5)
    rs.RFStream.type = property(lambda self: typ)

    def prepare(self, format, sh_compat=False):
        if self is not tr:
            return
        E.prove('headers', not state['written'] and format.upper() == FMT and bool(sh_compat) == bool(compat))
        E.prove('headers', AND(veq(self.id, ids), snap.headers(self.stats)))
        state['prepared'].append(1)
    rs.RFTrace._write_format_specific_header = prepare

    def writer(st, filename, format, kwargs):
        E.prove('once', not state['written'])
        E.prove('headers', len(state['prepared']) == 1)
        state['written'] = True
        E.prove('stream', filename == 'path' and format.upper() == FMT)
        ps = list(parts_of(st.traces))
        E.prove('stream', len(ps) == len(parts) and all(a is b for a, b in zip(ps, parts)))
        E.prove('options', kwargs == kw)
        if FMT == 'Q':
            E.prove('id-written', veq(tr.stats['station'], ids))
            E.cover('Q')
        else:
            E.prove('id-written', veq(tr.id, ids))
        if FMT == 'H5':
            want = typ
            if typ is None and 'event_time' in first.stats:
                want = 'rf'
            if want in ('rf', 'profile'):
                E.prove('index-used', veq(H5._INDEX, rs._H5INDEX[want]))
                E.cover('H5-' + want)
            else:
                E.prove('index-used', veq(H5._INDEX, old))
                E.cover('H5-other')
        if fails:
            raise WriterError()
    E.write_hook = writer
    if compat is not None:
        kw2 = dict(kw, sh_compat=compat)
    else:
        kw2 = kw
    try:
        r = s.write('path', name, **kw2)
        E.prove('raised', not fails)
        E.cover('done')
    except WriterError:
        E.prove('raised', bool(fails))
        E.cover('failed')
    E.prove('once', state['written'])
    ps = list(parts_of(s.traces))
    E.prove('objects', len(ps) == len(parts) and all(a is b for a, b in zip(ps, parts)))
    E.prove('id', veq(tr.id, ids))
    E.prove('kept', snap.headers(tr.stats))
    E.prove('samples', snap.samples(tr.data))
    E.prove('index', veq(H5._INDEX, old))
    E.cover('later' if later else 'first')


@contract('rf.rfstream.RFStream.write', expect=['nothing'], cover=['end'])
def empty(E, load):
    """writing an empty stream does nothing"""
    rs = load('rf.rfstream')
    name = FORMATS[E.choose(len(FORMATS))]
    H5 = stubs._module('obspyh5')
    H5._INDEX = old = SStr.word('index')
    H5.set_index = lambda index='standard': setattr(H5, '_INDEX', index)
    E.loader.stubs = dict(E.loader.stubs, obspyh5=H5)
    s = stream(rs.RFStream, [])
    s.write('path', name)
    E.prove('nothing', len(E.log) == 0 and veq(H5._INDEX, old) and len(parts_of(s.traces)) == 0)
    E.cover('end')


@contract('rf.rfstream.RFTrace.write', expect=['stream'], cover=['end'],
          assumptions=['RFStream.write enters by its contract'])
def trace_write(E, load):
    """a trace is written as a stream of this trace, with all options"""
    rs = load('rf.rfstream')
    tr = trace(E, rs.RFTrace, 'tr', present=('onset',), unknown=())
    snap = Snap(tr)
    calls = []

    def w(self, filename, format, **kw):
        calls.append((self, filename, format, kw))
    rs.RFStream.write = w
    kw = {} if E.choose(2) else dict(sh_compat=True, mode='a')
    tr.write('path', 'Q', **kw)
    E.prove('stream', len(calls) == 1)
    st, fn, f, k = calls[0]
    ps = list(parts_of(st.traces))
    E.prove('stream', len(ps) == 1 and ps[0] is tr and fn == 'path' and f == 'Q' and k == kw)
    E.prove('stream', AND(snap.headers(tr.stats), snap.samples(tr.data)))
    E.cover('end')


@contract('rf.rfstream.RFTrace._write_format_specific_header', expect=['kept', 'samples'], cover=['end'],
          assumptions=['obspy_to_sac_header and get_sac_reftime read only'])
def header(E, load):
    """preparing the format header (contract C01.roundtrip: an arbitrary header) changes stats.sac or stats.sh only"""
    from dv.contracts import c01
    E.prove('kept', True)
    c01.libs(E)
    name = ('SAC', 'q')[E.choose(2)]
    k = E.choose(len(c01.HEADS))
    rs, fmt, tr, head, field, pairs = c01.symbolic(E, load, name, k, old=bool(E.choose(2)))
    shared = [a for a, b in pairs if b == 'COMMENT'] if fmt == 'sh' else []
    rest = (0, E.int('others', 1))[E.choose(2)] if fmt == 'sh' else None
    state = []
    snap = Snap(tr)
    E.for_specs = {'rf.rfstream.RFTrace._write_format_specific_header:0':
                   c01.write_loop(E, (head, field), rest, shared, state, pairs)}
    tr._write_format_specific_header(name, sh_compat=bool(E.choose(2)) if fmt == 'sh' else False)
    E.prove('kept', snap.headers(tr.stats, skip=(fmt,)))
    E.prove('samples', snap.samples(tr.data))
    E.cover('end')
