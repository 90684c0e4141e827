"""C06: waveform retrieval visits every event-station pair and survives failures."""
import numpy as np
from rt.base import *
from rt.c03 import make_event, check, expected


def inventory(rng, codes):
    """codes: list of (net, sta, loc, lat, lon, elev, comps, start, end)"""
    from obspy.core.inventory import Inventory, Network, Station, Channel
    nets = {}
    for net, sta, loc, lat, lon, elev, comps, start, end in codes:
        n = nets.setdefault(net, Network(code=net))
        s = Station(code=sta, latitude=lat, longitude=lon, elevation=elev)
        for s2 in [x for x in n.stations if x.code == sta]:     # a later epoch of the same station
            for ch in s2.channels:
                ch.end_date = start
        for c in comps:
            s.channels.append(Channel(code='BH' + c, location_code=loc, latitude=lat, longitude=lon, elevation=elev,
                                      depth=0., start_date=start, end_date=end))
        n.stations.append(s)
    return Inventory(networks=list(nets.values()), source='x')


FAIL = ['ok', 'ok', 'ok', 'ok', 'ok', 'none', 'raise', 'ioerror', 'two', 'four', 'empty', 'gap', 'overlap_ok', 'short',
        'keyerror', 'valueerror', 'badmerge', 'outside']


@case(28, 300)
def retrieval(rng, note):
    """random catalogs, inventories and provider answers/failures per pair"""
    from obspy import Stream, Trace
    from obspy.core.event import Catalog
    from rf import iter_event_data, RFStream
    nst, nev = 1 + rng.randint(3), pick(rng, [0, 1, 2, 3, 4])
    base = rand_time(rng)
    codes = []
    for i in range(nst):
        late = rng.rand() < 0.2
        codes.append((pick(rng, ['XX', 'YY']), 'S%d' % i, pick(rng, ['', '00']), rng.uniform(-5, 5), rng.uniform(-5, 5),
                      float(rng.randint(0, 3000)), pick(rng, ['ZNE', 'Z12', '123']),
                      base + 10 ** 7 if late else None, None))
    moved = {}
    for i, c in enumerate(codes):       # stations which moved later on
        if c[7] is None and rng.rand() < .4:
            moved[i] = c[:3] + (c[3] + 1.5, c[4] - 1., c[5] + 100.) + c[6:7] + (base + 5000 * int(rng.randint(0, 3)) + 500, None)
    inv = inventory(rng, codes + list(moved.values()))
    evs, recs = [], []
    for j in range(nev):
        ll = (rng.uniform(-10, 10), rng.uniform(25, 100))
        rec = (ll, float(rng.randint(0, 300)), base + 5000 * j + rng.randint(100), 6.)
        ev = make_event(rng, *rec)
        broken = pick(rng, [None] * 8 + ['noorigin', 'nomag', 'nolat'])
        if broken == 'noorigin':
            ev.origins, ev.preferred_origin_id = [], None
        elif broken == 'nomag':
            ev.magnitudes, ev.preferred_magnitude_id = [], None
        elif broken == 'nolat':
            for o in ev.origins:
                o.latitude = None
        evs.append(ev)
        recs.append(rec + (broken,))
    phase = pick(rng, ['P', 'P', 'S'])
    win = pick(rng, [None, (-20, 60), (-30, 100)])
    pad = pick(rng, [0, 5, 10, None])
    kw = {}
    if win is not None:
        kw['request_window'] = win
    if pad is not None:
        kw['pad'] = pad
    lo, hi = (30, 90) if phase == 'P' else (50, 85)
    if rng.rand() < 0.3:
        lo, hi = kw['dist_range'] = (40, 80)
    win_ = win or ((-50, 150) if phase == 'P' else (-100, 50))
    pad_ = 10 if pad is None else pad
    plan = {(c[1], j): pick(rng, FAIL) for c in codes for j in range(nev)}
    note.update(stations=codes, events=[(r[0], r[1], str(r[2]), r[4]) for r in recs], phase=phase, plan=plan, moved=repr(moved),
                **{k: str(v) for k, v in kw.items()})
    calls = []
    sr = 2.
    given = {}

    def get_waveforms(network, station, location, channel, starttime, endtime, **extra):
        calls.append((network, station, location, channel, starttime, endtime, tuple(extra)))
        mid = starttime + (endtime - starttime) / 2
        j = min(range(nev), key=lambda q: abs(recs[q][2] + 600 - mid))
        mode = plan[(station, j)]
        if mode == 'none':
            return None
        if mode == 'raise':
            raise Exception('no data')
        if mode == 'ioerror':
            raise OSError('connection lost')
        if mode == 'keyerror':
            raise KeyError('x')
        if mode == 'valueerror':
            raise ValueError('x')
        n = int(round((endtime - starttime) * sr)) + 1
        out = Stream()
        comps = {'two': 'ZN', 'four': 'ZNEX', 'empty': ''}.get(mode, 'ZNE')
        for k, c in enumerate(comps):
            d = np.arange(n, dtype=float) + 1000 * k + 7 * j
            if mode == 'outside':
                out += Trace(d[:3], {'network': network, 'station': station, 'location': location,
                                     'channel': 'BH' + c, 'sampling_rate': sr, 'starttime': starttime - 5000})
                continue
            h = {'network': network, 'station': station, 'location': location, 'channel': 'BH' + c,
                 'sampling_rate': sr, 'starttime': starttime}
            if mode == 'gap' and k == 1:
                m = n // 2
                out += Trace(d[:m], h)
                out += Trace(d[m + 4:], dict(h, starttime=starttime + (m + 4) / sr))
            elif mode == 'overlap_ok' and k == 1:   # two contiguous pieces: no gap after merging
                m = n // 2
                out += Trace(d[:m], h)
                out += Trace(d[m:], dict(h, starttime=starttime + m / sr))
            elif mode == 'badmerge' and k == 1:
                m = n // 2
                out += Trace(d[:m], h)
                out += Trace(d[m:], dict(h, starttime=starttime + m / sr, sampling_rate=2 * sr))
            else:
                out += Trace(d, h)
        given[(station, j)] = [(t.stats.channel, t.data.copy(), t.stats.starttime) for t in out]
        return out
    cat = pick(rng, [lambda x: x, lambda x: Catalog(x)])(evs)
    got = []
    with quiet():
        for s in iter_event_data(cat, inv, get_waveforms, phase=phase, **kw):
            got.append(s)
    # expectation
    want_calls, want = [], []
    for j, (ll, depth, t, mag, broken) in enumerate(recs):
        for k, c in enumerate(codes):
            if k in moved and t >= moved[k][7]:
                c = moved[k]
            if broken or (c[7] is not None and t < c[7]):
                continue
            dist, baz, a = expected(ll, depth, t, (c[3], c[4]), phase)
            if not lo <= dist <= hi or a is None:
                continue
            onset = t + a.time
            want_calls.append((c[0], c[1], c[2], 'BH?', onset + win_[0] - pad_, onset + win_[1] + pad_))
            if plan[(c[1], j)] in ('ok', 'overlap_ok', 'short'):
                want.append((j, c, onset))
    need(len(calls) == len(want_calls), '%d requests instead of %d', len(calls), len(want_calls))
    srt = lambda x: sorted(x, key=lambda q: (q[1], q[4].timestamp))
    for a, b in zip(srt(calls), srt(want_calls)):
        need(a[:4] == b[:4], 'request %s instead of %s', a[:4], b[:4])
        need(abs(a[4] - b[4]) < 1e-5 and abs(a[5] - b[5]) < 1e-5, 'requested window %s instead of %s', a[4:], b[4:])
        need(not a[6], 'unexpected arguments %s passed to the provider', a[6])
    need(len(got) == len(want), '%d streams delivered instead of %d', len(got), len(want))
    key = lambda st: (st[0].stats.station, st[0].stats.event_time.timestamp)
    got.sort(key=key)
    want.sort(key=lambda w: (w[1][1], recs[w[0]][2].timestamp))
    for s, (j, c, onset) in zip(got, want):
        need(isinstance(s, RFStream), 'delivered %s', type(s))
        need(len(s) == 3, '%d traces', len(s))
        for tr in s:
            check(tr.stats, *recs[j][:4], sta_ll=(c[3], c[4]), elev=c[5], phase=phase)
            need(tr.stats.station == c[1] and tr.stats.network == c[0] and tr.stats.location == c[2], 'station codes')
            t1, t2 = onset + win_[0], onset + win_[1]
            need(abs(tr.stats.starttime - t1) <= .51 / sr and abs(tr.stats.endtime - t2) <= .51 / sr,
                 'window %s - %s instead of %s - %s', tr.stats.starttime, tr.stats.endtime, t1, t2)
            k = {'Z': 0, 'N': 1, 'E': 2}[tr.stats.channel[-1]]
            i0 = int(round((tr.stats.starttime - (t1 - pad_)) * sr))
            need_close(tr.data, np.arange(len(tr)) + i0 + 1000. * k + 7 * j, 'samples')


@case(4, 20)
def progress(rng, note):
    """the progress bar counts every pair once and does not alter the result"""
    from rf import iter_event_data
    base = rand_time(rng)
    inv = inventory(rng, [('XX', 'A', '', 0., 0., 0., 'ZNE', None, None), ('XX', 'B', '', 1., 0., 0., 'ZNE', None, None)])
    evs = [make_event(rng, (0., 20. + 30 * i), 10., base + i * 5000, 6.) for i in range(1 + rng.randint(3))]
    note['events'] = len(evs)

    class Bar:
        total, n = None, 0

        def update(self, k=1):
            self.n += k
    bar, calls = Bar(), []
    with quiet():
        list(iter_event_data(evs, inv, lambda **k: calls.append(k), pbar=bar))
    need(bar.total == 2 * len(evs) and bar.n == bar.total, 'progress %s of %s', bar.n, bar.total)
    need(len(calls) == 2 * (len(evs) - 1), '%d requests', len(calls))


@case(8, 60)
def batch_provider(rng, note):
    """rf.batch.init_data provider from a local file and a plugin; a failing plugin request is skipped"""
    import os, sys
    from obspy import Stream, Trace
    from rf.batch import init_data
    with scratch() as d, quiet():
        t0 = rand_time(rng)
        st = Stream([Trace(np.arange(100, dtype=np.int32) + 1000 * i, {'network': 'XX', 'station': s, 'channel': 'BH' + c,
                     'starttime': t0, 'sampling_rate': 1.})
                     for i, (s, c) in enumerate([(s, c) for s in 'AB' for c in 'ZNE'])])
        st.write(os.path.join(d, 'x.mseed'), 'MSEED')
        a, b = t0 + rng.randint(0, 40), t0 + rng.randint(50, 90)
        sta = pick(rng, 'AB')
        mode = pick(rng, ['file', 'plugin', 'plugin_fail'])
        note.update(mode=mode, station=sta)
        if mode == 'file':
            gw = init_data(os.path.join(d, 'x.mseed'))
        else:
            name = 'plug%d' % rng.randint(10 ** 9)
            with open(os.path.join(d, name + '.py'), 'w') as f:
                f.write('from obspy import read\ndef gw(**kw):\n')
                if mode == 'plugin_fail':
                    f.write('    raise ValueError("no")\n')
                else:
                    f.write('    s, e = kw.pop("starttime"), kw.pop("endtime")\n'
                            '    return read("x.mseed").select(**kw).slice(s, e)\n')
            import importlib
            importlib.invalidate_caches()
            sys.path_importer_cache.clear()
            gw = init_data('plugin', plugin='%s : gw' % name)
        import io, contextlib
        with contextlib.redirect_stdout(io.StringIO()):
            r = gw(network='XX', station=sta, location='', channel='BH?', starttime=a, endtime=b)
        if mode == 'plugin_fail':
            need(r is None, 'failed request returned %r', r)
        else:
            need(sorted(t.id for t in r) == ['XX.%s..BH%s' % (sta, c) for c in 'ENZ'], 'traces %s', [t.id for t in r])
            for t in r:
                need(abs(t.stats.starttime - a) < 1e-6 and abs(t.stats.endtime - b) < 1e-6, 'window')
                k = 'AB'.index(sta) * 3 + 'ZNE'.index(t.stats.channel[-1])
                need(t.data[0] == 1000 * k + round(a - t0), 'samples')
