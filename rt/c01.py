"""C01: header metadata survives a save/load round trip."""
import os
import numpy as np
from rt.base import *

NUM = ['station_latitude', 'station_longitude', 'station_elevation', 'event_latitude', 'event_longitude',
       'event_depth', 'event_magnitude', 'distance', 'back_azimuth', 'inclination', 'slowness',
       'pp_latitude', 'pp_longitude', 'pp_depth', 'box_pos', 'box_length']
STR = ['type', 'phase', 'moveout']
TIM = ['event_time', 'onset']
ALL = NUM + STR + TIM


def val(rng, h, start):
    if h == 'type':
        return pick(rng, ['rf', 'rf', 'profile'])
    if h == 'phase':
        return pick(rng, ['P', 'S', 'PP', 'Ps'])
    if h == 'moveout':
        return pick(rng, ['Ps', 'Sp', 'Ppps'])
    if h == 'event_time':
        return start - float(rng.randint(-50, 900)) + pick(rng, [0, 0.5, 0.125])
    if h == 'onset':
        return start + float(rng.randint(-10, 200)) + pick(rng, [0, 0.5, 0.125])
    z = rng.randint(4)
    if z == 0:
        v = 0.
    else:
        lim = {'event_magnitude': (1, 9.5), 'slowness': (0.5, 20), 'distance': (0, 180), 'event_depth': (0, 700),
               'back_azimuth': (0, 360), 'inclination': (0, 90)}.get(h, (-90, 90))
        if h.endswith('longitude'):
            lim = (-180, 180)
        v = round(rng.uniform(*lim), 1)
    k = rng.randint(6)
    if k == 0:
        v = np.float64(v)
    elif k == 1:
        v = np.float32(v)
    elif k == 2 and h not in ('event_magnitude',):
        v = int(v)
    elif k == 3:
        v = np.int64(v)
    return v


def build(rng, heads):
    from rf.rfstream import RFTrace
    hdr = rand_header(rng, net=pick(rng, ['XX', 'A', '']), sta=pick(rng, ['AAA', 'STA01', 'B']),
                      loc=pick(rng, ['', '00', '10']), cha=pick(rng, ['BHZ', 'HHQ', 'BHT']))
    n = int(rng.randint(5, 60))
    tr = RFTrace(data=rand_data(rng, n), header=hdr)
    for h in heads:
        tr.stats[h] = val(rng, h, hdr['starttime'])
    return tr


FMT = {'SAC': '.SAC', 'Q': '.QHD', 'H5': '.h5'}


def roundtrip(rng, note, fmt, heads, ntr=1):
    from rf import RFStream, read_rf
    traces = [build(rng, heads) for _ in range(ntr)]
    if ntr > 1:   # distinct ids
        which = pick(rng, ['network', 'station', 'location', 'channel'])
        for i, t in enumerate(traces):
            if which != 'station':    # the same event, station and window
                for h in ('network', 'station', 'location', 'channel', 'starttime', 'sampling_rate', 'event_time',
                          'onset'):
                    if h in traces[0].stats:
                        t.stats[h] = traces[0].stats[h]
                t.data = rand_data(rng, len(traces[0]))
            t.stats[which] = {'network': 'N%d', 'station': 'S%02d', 'location': '%02d', 'channel': 'BH%d'}[which] % i
    st = RFStream(traces)
    note.update(format=fmt, headers={h: traces[0].stats[h] for h in heads}, id=traces[0].id, n=ntr)
    want = [snap(t) for t in traces]
    ids = [t.id for t in traces]
    f = pick(rng, [fmt, fmt.lower()])
    with scratch() as d, quiet():
        fn = os.path.join(d, 'x' + FMT[fmt])
        if fmt == 'SAC':
            got = RFStream()
            for i, t in enumerate(traces):
                fn = os.path.join(d, 'x%d.SAC' % i)
                t.write(fn, f)
                got += read_rf(fn)
        else:
            st.write(fn, f)
            got = read_rf(fn)
        for t in got:
            t.data = np.array(t.data)
    need(len(got) == ntr, '%s traces read instead of %s', len(got), ntr)
    if fmt == 'H5':
        order = {t.id: t for t in got}
        need(sorted(order) == sorted(ids), 'ids %s instead of %s', sorted(order), sorted(ids))
        got = [order[i] for i in ids]
    for (data, hd), i, g in zip(want, ids, got):
        need(g.id == i, 'trace id %r instead of %r', g.id, i)
        need_close(g.data, data, 'samples', rtol=2e-6, atol=1e-4 if fmt == 'Q' else 1e-6)
        s = g.stats
        need(abs(s.starttime - hd['starttime']) < 2e-3, 'starttime %s instead of %s', s.starttime, hd['starttime'])
        need(abs(s.sampling_rate - hd['sampling_rate']) < 1e-5 * s.sampling_rate, 'sampling rate')
        for h in ALL:
            if h in heads:
                need(h in s, '%s: header %s=%r lost', fmt, h, hd[h])
                if h in STR:
                    need(str(s[h]) == str(hd[h]), '%s: header %s is %r instead of %r', fmt, h, s[h], hd[h])
                elif h in TIM:
                    need(hasattr(s[h], 'timestamp') and abs(s[h] - hd[h]) < 2e-3,
                         '%s: header %s is %s instead of %s', fmt, h, s[h], hd[h])
                else:
                    need(abs(float(s[h]) - float(hd[h])) <= 2e-5 * max(1, abs(float(hd[h]))),
                         '%s: header %s is %r instead of %r', fmt, h, s[h], hd[h])
            else:
                need(h not in s, '%s: header %s=%r invented', fmt, h, s.get(h))


def subset(rng):
    k = rng.randint(5)
    if k == 0:
        return list(ALL)
    if k == 1:
        return [pick(rng, ALL)]
    if k == 2:
        drop = pick(rng, ALL)
        return [h for h in ALL if h != drop]
    p = rng.rand()
    return [h for h in ALL if rng.rand() < p]


@case(70, 1500)
def sac(rng, note):
    """SAC: random subset of headers, random (also zero, integer, numpy) values"""
    roundtrip(rng, note, 'SAC', subset(rng), ntr=1 + rng.randint(2))


@case(70, 1500)
def q(rng, note):
    """SeismicHandler Q"""
    roundtrip(rng, note, 'Q', subset(rng), ntr=1 + rng.randint(3))


@case(70, 1500)
def h5(rng, note):
    """HDF5 (the H5 index of type rf needs event_time, that of type profile box_pos)"""
    heads = subset(rng)
    if 'type' in heads:
        heads += [h for h in ('event_time', 'box_pos') if h not in heads]
    roundtrip(rng, note, 'H5', heads, ntr=1 if 'type' in heads else 1 + rng.randint(3))


@case(60, 1200)
def stale(rng, note):
    """a stream read from a file, with some headers removed or changed, is written and read again: the headers of the
    file it came from do not return"""
    from rf import RFStream, read_rf
    fmt = pick(rng, ['SAC', 'Q', 'H5'])
    heads = subset(rng) or [pick(rng, ALL)]
    if fmt == 'H5' and 'type' in heads:
        heads += [h for h in ('event_time', 'box_pos') if h not in heads]
    tr = build(rng, heads)
    fmt2 = fmt
    with scratch() as d, quiet():
        fn = os.path.join(d, 'x' + FMT[fmt])
        RFStream([tr]).write(fn, fmt)
        st = read_rf(fn)
        s = st[0].stats
        p = pick(rng, [.2, .5, 1.])
        drop = [h for h in heads if rng.rand() < p] or [pick(rng, heads)]
        if fmt == 'H5':
            drop = [h for h in drop if h not in ('event_time', 'box_pos')]
        change = [h for h in heads if h not in drop and rng.rand() < .3 and h not in ('type',)]
        note.update(format=fmt, headers=heads, removed=drop, changed=change)
        for h in drop:
            s.pop(h, None)
        for h in change:
            s[h] = val(rng, h, s.starttime)
        want = {h: s[h] for h in ALL if h in s}
        fn = os.path.join(d, 'y' + FMT[fmt])
        st.write(fn, fmt)
        got = read_rf(fn)[0].stats
    for h in ALL:
        if h not in want:
            need(h not in got, '%s: removed header %s=%r came back', fmt, h, got.get(h))
        else:
            need(h in got, '%s: header %s lost', fmt, h)
            if h in STR:
                need(str(got[h]) == str(want[h]), '%s: header %s is %r instead of %r', fmt, h, got[h], want[h])
            elif h in TIM:
                need(abs(got[h] - want[h]) < 2e-3, '%s: header %s is %s instead of %s', fmt, h, got[h], want[h])
            else:
                need(abs(float(got[h]) - float(want[h])) <= 2e-5 * max(1, abs(float(want[h]))),
                     '%s: header %s is %r instead of %r', fmt, h, got[h], want[h])
