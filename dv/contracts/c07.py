"""C07: trim2 and slice2 (rf.rfstream.RFStream.trim2, slice2, rf.rfstream.RFTrace._seconds2utc)"""
import z3
from dv.contracts.lib import *

CONTRACTS, contract = registry()
FIELDS = ('trim2: number of samples and start time after obspy Trace.trim(t1, t2) are those obspy gives (arbitrary '
          'here)',)


def when(E, name, k=None):
    """omitted, relative seconds or absolute time"""
    k = E.choose(3) if k is None else k
    return (None, E.real(name), SUTC(E.real(name)))[k], k


def reference(E, k=None):
    k = E.choose(5) if k is None else k
    return ('onset', 'starttime', 'endtime', SUTC(E.real('reftime')), None)[k]


def expected(st, t, ref):
    if t is None or isinstance(t, SUTC):
        return t
    return (st[ref] if isinstance(ref, str) else ref) + t


def same_time(a, b):
    if a is None or b is None:
        return a is b
    if not isinstance(a, SUTC):
        return False
    return veq(a, b)


def world(E, load, npts_positive=False):
    rs = load('rf.rfstream')
    E.append_fresh = lambda x: (lambda: trace(E, rs.RFTrace, 'cut', unknown=('_format',))) \
        if isinstance(x, stubs.Trace) else None
    kw = dict(present=('onset',), unknown=('type', 'phase'), npts=None)
    g1, g2 = traces(E, rs.RFTrace, 'before', **kw), traces(E, rs.RFTrace, 'behind', **kw)
    tr = trace(E, rs.RFTrace, 'tr', **kw)
    return rs, g1, tr, g2, stream(rs.RFStream, [g1, tr, g2])


@contract('rf.rfstream.RFStream.trim2', 'rf.rfstream.RFTrace._seconds2utc',
          expect=['start', 'end', 'options', 'kept', 'removed', 'returned', 'frame'], cover=['kept', 'removed'],
          assumptions=FIELDS)
def trim2(E, load):
    """every trace is trimmed once, from its own reference time plus the seconds; further options reach the trim
    method unchanged; the stream holds afterwards the traces with samples, in order; other headers are untouched"""
    rs, g1, tr, g2, s = world(E, load)
    options = E.choose(2)       # either all kinds of times or all kinds of further options
    if options:
        (t1, k1), (t2, k2), ref = when(E, 't1', 1), when(E, 't2', 1), reference(E, 0)
    else:
        (t1, k1), (t2, k2), ref = when(E, 't1'), when(E, 't2'), reference(E)
    if ref is None and (k1 == 1 or k2 == 1):
        raise core.PathEnd()            # seconds without reference time: outside of the precondition
    before = dict((k, tr.stats[k]) for k in ('onset', 'starttime', 'endtime'))
    snap = Snap(tr)
    kw = {}
    if options and E.choose(2):
        kw = dict(pad=E.bool('pad'), nearest_sample=E.bool('nearest'), fill_value=E.real('fill'))
    args = [(t1, t2, ref), (t1, t2)][0]
    if not options or E.choose(2):
        r = s.trim2(*args, **kw)
    else:
        named = dict(kw)
        for n, v in zip(('starttime', 'endtime', 'reftime'), args):
            if v is not None:
                named[n] = v
        r = s.trim2(**named)
    E.prove('returned', r is s)
    log = tr.log[len(snap.log):]
    need(len(log) == 1 and log[0][0] == 'trim', 'trace is not trimmed once by Trace.trim')
    _, a, b, pad, nearest, fill = log[0]
    E.prove('start', same_time(a, expected(before, t1, ref)))
    E.prove('end', same_time(b, expected(before, t2, ref)))
    E.prove('options', AND(veq(pad, kw.get('pad', False)), veq(nearest, kw.get('nearest_sample', True)),
                           veq(fill, kw.get('fill_value')) if kw else fill is None))
    E.prove('frame', snap.headers(tr.stats, ('npts', 'starttime')))
    ps = s.traces.parts
    ok = [getattr(p, 'image_of', None) for p in ps]
    if lift(tr.stats['npts']) > 0:
        E.prove('kept', len(ps) == 3 and ps[1] is tr and ok[0] is g1 and ok[2] is g2)
        E.cover('kept')
    else:
        E.prove('removed', len(ps) == 2 and ok[0] is g1 and ok[1] is g2)
        E.cover('removed')


@contract('rf.rfstream.RFStream.slice2', 'rf.rfstream.RFTrace._seconds2utc', 'rf.rfstream.RFStream.__init__',
          expect=['start', 'end', 'options', 'kept', 'removed', 'original', 'samples', 'new'],
          cover=['kept', 'removed', 'kept-empty'],
          assumptions=['slice2: Trace.slice gives a new trace with the samples obspy selects (arbitrary here)'])
def slice2(E, load):
    """every trace is sliced once, from its own reference time plus the seconds; the result holds the slices with
    samples (or all if asked for), in order; the original stream and its traces do not change"""
    rs, g1, tr, g2, s = world(E, load)
    options = E.choose(2)       # either all kinds of times or all kinds of further options
    if options:
        (t1, k1), (t2, k2), ref = when(E, 't1', 1), when(E, 't2', 1), reference(E, 0)
    else:
        (t1, k1), (t2, k2), ref = when(E, 't1'), when(E, 't2'), reference(E)
    if ref is None and (k1 == 1 or k2 == 1):
        raise core.PathEnd()
    before = dict((k, tr.stats[k]) for k in ('onset', 'starttime', 'endtime'))
    snap = Snap(tr)
    kw = {}
    if options and E.choose(2):
        kw = dict(nearest_sample=E.bool('nearest'))
    keep = [None, True, False][E.choose(3) if options else 0]
    if keep is not None:
        kw['keep_empty_traces'] = keep
    r = s.slice2(t1, t2, ref, **kw)
    ps = s.traces.parts
    E.prove('original', len(ps) == 3 and ps[0] is g1 and ps[1] is tr and ps[2] is g2 and len(tr.log) == len(snap.log)
            and tr.data is snap.data)
    E.prove('original', snap.headers(tr.stats))
    E.prove('samples', snap.samples(tr.data))
    E.prove('new', isinstance(r, rs.RFStream) and r is not s)
    own = [x for x in r.traces.parts if isinstance(x, stubs.Trace)]
    need(len(E.slices) == 1, 'trace is not sliced once by Trace.slice')
    (new,) = E.slices
    _, a, b, nearest = new.log[-1]
    E.prove('start', same_time(a, expected(before, t1, ref)))
    E.prove('end', same_time(b, expected(before, t2, ref)))
    E.prove('options', veq(nearest, kw.get('nearest_sample', True)))
    gaps = [x for x in r.traces.parts if isinstance(x, Gap)]
    if keep or lift(new.stats['npts']) > 0:
        E.prove('kept', len(own) == 1 and own[0] is new and len(r.traces.parts) == 3 and r.traces.parts[1] is new)
        E.prove('headers', snap.headers(new.stats, ('npts', 'starttime')))
        E.cover('kept')
        if keep and lift(new.stats['npts']) == 0:
            E.cover('kept-empty')
    else:
        E.prove('removed', own == [] and len(gaps) in (0, 2))
        E.cover('removed')
