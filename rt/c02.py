"""C02: saving leaves the stream in memory and the HDF5 index unchanged, also when the writer fails."""
import os
import numpy as np
from rt.base import *
from rt.c01 import build, subset, ALL, FMT


def make(rng, fmt, heads):
    from rf import RFStream
    n = 1 + rng.randint(4)
    traces = [build(rng, heads) for _ in range(n)]
    for i, t in enumerate(traces):
        t.stats.station = pick(rng, ['S%02d' % i, 'LONG%d' % i])
        if fmt == 'H5':
            t.stats.type = traces[0].stats.get('type') or t.stats.get('type')
            if t.stats.type is None:
                del t.stats['type']
        if rng.rand() < 0.3:
            t.stats.processing = ['step 1']
        for h in ('onset', 'event_time'):   # times with microseconds
            if h in t.stats and rng.rand() < .6:
                t.stats[h] += rng.randint(1, 10 ** 6) * 1e-6
    if fmt == 'H5' and 'type' in traces[0].stats and traces[0].stats.type == 'profile':
        for i, t in enumerate(traces):
            t.stats.box_pos = float(i)
    return RFStream(traces)


IGN = ('sac', 'sh', '_format', 'mseed')


def unchanged(st, ids, want, objs, what):
    need(len(st) == len(ids), '%s: number of traces changed', what)
    for t, o, i, w in zip(st, objs, ids, want):
        need(t is o, '%s: trace object replaced', what)
        need(t.id == i, '%s: id is %r instead of %r', what, t.id, i)
        same_snap(w, snap(t, IGN), what, IGN)


def get_index():
    import obspyh5
    return obspyh5._INDEX


@case(60, 1500)
def write(rng, note):
    """successful write in each format, several times in a row, with a custom H5 index installed"""
    import obspyh5
    fmt = pick(rng, ['SAC', 'Q', 'H5'])
    heads = subset(rng)
    if fmt == 'H5' and 'type' in heads:
        heads += [h for h in ('event_time', 'box_pos') if h not in heads]
    st = make(rng, fmt, heads)
    before = get_index()
    custom = rng.rand() < 0.5
    if custom:
        obspyh5.set_index('waveforms/{network}.{station}/{starttime.datetime:%Y-%m-%dT%H:%M:%S}_{channel}')
    try:
        idx = get_index()
        ids, want, objs = [t.id for t in st], [snap(t, IGN) for t in st], list(st)
        kw = {}
        if fmt == 'Q' and rng.rand() < 0.5:
            kw['sh_compat'] = True
        note.update(format=fmt, ids=ids, headers=heads, custom_index=custom, **kw)
        with scratch() as d, quiet():
            for k in range(1 + rng.randint(2)):
                f = pick(rng, [fmt, fmt.lower()])
                if len(st) == 1 or fmt != 'SAC':
                    if len(st) == 1 and rng.rand() < 0.5:
                        st[0].write(os.path.join(d, 'x%d' % k + FMT[fmt]), f, **kw)
                    else:
                        st.write(os.path.join(d, 'x%d' % k + FMT[fmt]), f, **kw)
                else:
                    for i, t in enumerate(st):
                        t.write(os.path.join(d, 'x%d_%d' % (k, i) + FMT[fmt]), f)
        unchanged(st, ids, want, objs, '%s write' % fmt)
        need(get_index() == idx, 'H5 index is %r instead of %r', get_index(), idx)
    finally:
        obspyh5.set_index(before)


@case(50, 1000)
def failing(rng, note):
    """the underlying writer fails (missing directory, target is a directory, unknown format)"""
    import obspyh5
    fmt = pick(rng, ['SAC', 'Q', 'H5'])
    heads = subset(rng)
    if fmt == 'H5' and 'type' in heads:
        heads += [h for h in ('event_time', 'box_pos') if h not in heads]
    st = make(rng, fmt, heads)
    before = get_index()
    ids, want, objs = [t.id for t in st], [snap(t, IGN) for t in st], list(st)
    how = pick(rng, ['missing', 'isdir', 'option', 'badindex'])
    if how == 'badindex':
        fmt = 'H5'
        for t in st:
            t.stats.type = 'rf'
            t.stats.event_time = t.stats.starttime
        del st[-1].stats['event_time']
        want = [snap(t, IGN) for t in st]
    note.update(format=fmt, ids=ids, headers=heads, failure=how)
    with scratch() as d, quiet():
        fn = os.path.join(d, 'nodir', 'x' + FMT[fmt])
        kw = {}
        if how == 'badindex':
            fn = os.path.join(d, 'x.h5')
        elif how == 'isdir':
            fn = os.path.join(d, 'x' + FMT[fmt])
            os.mkdir(fn)
            if fmt == 'Q':
                os.mkdir(os.path.join(d, 'x.QBN'))
        elif how == 'option':
            fn = os.path.join(d, 'x' + FMT[fmt])
            kw['nosuchoption'] = object()
            if fmt != 'H5':
                fn = os.path.join(d, 'nodir', 'y' + FMT[fmt])
                kw = {}
        try:
            st.write(fn, fmt, **kw)
            failed = False
        except Exception as ex:
            note['exception'] = '%s: %s' % (type(ex).__name__, ex)
            failed = True
    try:
        unchanged(st, ids, want, objs, 'failing %s write' % fmt)
        need(get_index() == before, 'H5 index is %r instead of %r', get_index(), before)
    finally:
        obspyh5.set_index(before)
    if not failed:
        raise Skip()


@case(6, 30)
def empty(rng, note):
    """writing an empty stream does nothing"""
    from rf import RFStream
    fmt = pick(rng, ['SAC', 'Q', 'H5', 'sac'])
    note['format'] = fmt
    idx = get_index()
    with scratch() as d:
        RFStream().write(os.path.join(d, 'x'), fmt)
        need(os.listdir(d) == [], 'file created for an empty stream')
    need(get_index() == idx, 'H5 index changed')
