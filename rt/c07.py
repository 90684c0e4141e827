"""C07: relative trimming and slicing use each trace's own reference time."""
import numpy as np
from rt.base import *


def make(rng, note, share=True):
    from rf import RFStream
    from rf.rfstream import RFTrace
    n = pick(rng, [0, 1, 2, 3, 5])
    sr = pick(rng, SRS)
    traces = []
    for i in range(n):
        st = rand_time(rng)
        ln = pick(rng, [1, 2, 30, 60, 61, 100])
        h = rand_header(rng, pick(rng, [sr, sr, pick(rng, SRS)]), start=st)
        h['onset'] = st + pick(rng, [0, 5, 10.5, 20, 33.25, 500, -7])
        h['other'] = st + rng.randint(0, 20)
        traces.append(RFTrace(data=rand_data(rng, ln), header=h))
    s = RFStream(traces)
    note['traces'] = [(str(t.stats.starttime), str(t.stats.onset), t.stats.sampling_rate, len(t)) for t in traces]
    return s


def rand_end(rng, s, note, lo, hi):
    k = rng.randint(5)
    if k == 0:
        return None
    if k == 1 and len(s):
        return s[rng.randint(len(s))].stats.starttime + rng.randint(lo, hi)
    return pick(rng, [float(rng.randint(lo, hi)), int(rng.randint(lo, hi)), rng.uniform(lo, hi), 0])


def ref_time(tr, x, ref):
    from obspy import UTCDateTime
    if x is None or isinstance(x, UTCDateTime):
        return x
    if isinstance(ref, UTCDateTime):
        return ref + x
    return tr.stats[ref] + x


def opts(rng, kind):
    kw = {}
    if rng.rand() < 0.3:
        kw['nearest_sample'] = bool(rng.randint(2))
    if kind == 'trim' and rng.rand() < 0.4:
        kw['pad'] = True
        if rng.rand() < 0.7:
            kw['fill_value'] = pick(rng, [0, 0., -3.5])
    return kw


@case(150, 4000)
def trim(rng, note):
    """trim2: every trace is trimmed by obspy at its own times; empty traces are removed; in place"""
    s = make(rng, note)
    ref = pick(rng, ['onset', 'onset', 'starttime', 'endtime', 'other', 'utc'])
    if ref == 'utc':
        ref = (s[0].stats.starttime if len(s) else rand_time(rng)) + rng.randint(0, 20)
    a, b = rand_end(rng, s, note, -20, 10), rand_end(rng, s, note, 1, 40)
    if ref == 'endtime':
        a, b = [x if x is None or hasattr(x, 'timestamp') else -x for x in (b, a)]
    kw = opts(rng, 'trim')
    if any(hasattr(x, 'timestamp') for x in (a, b, ref)):
        kw = {k: v for k, v in kw.items() if k == 'nearest_sample'}
    note.update(start=str(a), end=str(b), reftime=str(ref), **kw)
    traces = list(s)
    want = [t.copy() for t in traces]
    for w in want:
        try:
            w.trim(ref_time(w, a, ref), ref_time(w, b, ref), **kw)
        except Exception:
            raise Skip()
    with quiet():
        r = s.trim2(a, b, reftime=ref, **kw)
    keep = [i for i, w in enumerate(want) if w.stats.npts]
    need(r is s, 'trim2 returned another stream')
    need([[j for j, t in enumerate(traces) if t is x] for x in s] == [[i] for i in keep], 'kept traces differ from %s', keep)
    for i in keep:
        same_snap(snap(want[i], ('processing',)), snap(traces[i], ('processing',)), 'trace %d' % i, ('processing',))


@case(150, 4000)
def slice_(rng, note):
    """slice2: as obspy's slice at each trace's own times; the input stream stays untouched"""
    s = make(rng, note)
    ref = pick(rng, ['onset', 'onset', 'starttime', 'endtime', 'other', 'utc'])
    if ref == 'utc':
        ref = (s[0].stats.starttime if len(s) else rand_time(rng)) + rng.randint(0, 20)
    a, b = rand_end(rng, s, note, -20, 10), rand_end(rng, s, note, 1, 40)
    if ref == 'endtime':
        a, b = [x if x is None or hasattr(x, 'timestamp') else -x for x in (b, a)]
    kw = opts(rng, 'slice')
    keepe = pick(rng, [False, False, True])
    note.update(start=str(a), end=str(b), reftime=str(ref), keep_empty_traces=keepe, **kw)
    before = [snap(t) for t in s]
    traces = list(s)
    try:
        want = [t.slice(ref_time(t, a, ref), ref_time(t, b, ref), **kw) for t in traces]
    except Exception:
        raise Skip()
    k2 = dict(kw)
    if keepe or rng.rand() < 0.3:
        k2['keep_empty_traces'] = keepe
    with quiet():
        r = s.slice2(a, b, reftime=ref, **k2)
    need(type(r) is type(s) and r is not s, 'type %s', type(r))
    keep = [w for w in want if keepe or w.stats.npts]
    need(len(r) == len(keep), '%d traces instead of %d', len(r), len(keep))
    for w, g in zip(keep, r):
        same_snap(snap(w), snap(g), 'slice')
    need(len(s) == len(traces) and all(x is y for x, y in zip(s, traces)), 'input stream changed')
    for t, w in zip(traces, before):
        same_snap(w, snap(t), 'input of slice2')


@case(30, 300)
def absolute(rng, note):
    """without reftime the given absolute times are used as they are"""
    s = make(rng, note)
    if not len(s):
        raise Skip()
    a = s[0].stats.starttime + rng.randint(0, 10)
    b = a + rng.randint(1, 20)
    a, b = pick(rng, [(a, b), (None, b), (a, None), (None, None)])
    note.update(start=str(a), end=str(b))
    want = [t.copy().trim(a, b) for t in s]
    s2 = s.copy()
    s.trim2(a, b)
    keep = [w for w in want if w.stats.npts]
    need(len(s) == len(keep), '%d traces instead of %d', len(s), len(keep))
    for w, g in zip(keep, s):
        same_snap(snap(w, ('processing',)), snap(g, ('processing',)), 'trim2', ('processing',))
    r = s2.slice2(a, b)
    need(len(r) == len(keep), 'slice2: %d traces instead of %d', len(r), len(keep))
    for w, g in zip(keep, r):
        same_snap(snap(w, ('processing',)), snap(g, ('processing',)), 'slice2', ('processing',))
