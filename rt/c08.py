"""C08: receiver function calculation runs the documented steps on every group."""
import numpy as np
from rt.base import *


def groups_of(traces):
    g = {}
    for t in traces:
        g.setdefault((t.id[:-1], str(t.stats.onset)), []).append(t)
    return [v for v in g.values() if len(v) in (2, 3)]


def make(rng, note, comps, nmax=3, sr=None):
    traces = []
    ng = 1 + rng.randint(nmax)
    n = int(rng.randint(70, 130))
    sr = sr or pick(rng, [2., 4., 5.])
    t0 = rand_time(rng)
    for i in range(ng):
        c = list(comps)
        rng.shuffle(c)
        same = rng.rand() < 0.4 and i
        start = traces[-1].stats.starttime + (1000 * (i + 1) if not same else 0) if i else t0
        traces += group(rng, c, n=n, sr=sr, sta='S%d' % (i if same or rng.rand() < .5 else 0), start=start,
                        loc=pick(rng, ['', '00']), onset_at=int(rng.randint(n // 3, n // 2)) / sr)
    if rng.rand() < 0.3:
        rng.shuffle(traces)
    note['traces'] = [(t.id, str(t.stats.onset)) for t in traces]
    return traces, sr, n


def pipeline(traces, method, filter=None, trim=None, downsample=None, rotate='ZNE->LQT', deconvolve='time',
             source_components=None, **kw):
    from obspy import Stream
    from rf import RFStream
    from rf.deconvolve import deconvolve as dec
    for t in traces:
        if filter:
            t.filter(**filter)
    if trim:
        for t in traces:
            t.trim(t.stats.onset + trim[0], t.stats.onset + trim[1])
        traces = [t for t in traces if len(t)]
    if downsample:
        for t in traces:
            if downsample <= t.stats.sampling_rate:
                t.decimate(int(np.floor(t.stats.sampling_rate / downsample + 1e-9)))
    if rotate:
        for g in groups_of(traces):
            Stream(g).rotate(rotate)
    for t in traces:
        if t.stats.channel[-1] == 'Q':
            t.data = -t.data
    if deconvolve:
        for g in groups_of(traces):
            k = dict(kw)
            k.setdefault('winsrc', method)
            dec(RFStream(g), method=deconvolve, source_components=source_components or {'P': 'LZ', 'S': 'QR'}[method], **k)
    if method == 'S':
        for t in traces:
            t.data = t.data[::-1].copy()
            t.stats.onset = t.stats.starttime + (t.stats.endtime - t.stats.onset)
    for t in traces:
        t.stats.type = 'rf'
        if str(t.stats.get('phase', ' '))[-1:].upper() != method or True:
            pass
    return traces


def compare(want, got, method, what=''):
    need(len(want) == len(got), '%s%d traces instead of %d', what, len(got), len(want))
    for w, g in zip(want, got):
        need(w.id == g.id, '%sid %s instead of %s', what, g.id, w.id)
        need_close(g.data, w.data, '%s%s samples' % (what, g.id), rtol=1e-6, atol=1e-9 * max(1e-30, np.max(np.abs(w.data))))
        for k in ('onset', 'starttime', 'endtime'):
            need(abs(g.stats[k] - w.stats[k]) < 1e-6, '%s%s %s instead of %s', what, k, g.stats[k], w.stats[k])
        need(g.stats.sampling_rate == w.stats.sampling_rate, '%ssampling rate', what)
        need(g.stats.get('type') == 'rf', '%stype %r', what, g.stats.get('type'))
        need(str(g.stats.phase)[-1].upper() == method, '%smethod from phase %r', what, g.stats.phase)
        for k in ('back_azimuth', 'inclination', 'slowness', 'distance', 'event_magnitude', 'station_latitude', 'station',
                  'network', 'location', 'event_time'):
            need(eq(g.stats.get(k), w.stats.get(k)), '%sheader %s is %r instead of %r', what, k, g.stats.get(k), w.stats.get(k))


@case(40, 900)
def options(rng, note):
    """random option combination on several groups, compared with the documented steps done one by one"""
    from rf import RFStream
    method = pick(rng, ['P', 'S'])
    lay = rng.randint(5)
    comps, rot = [('ZNE', 'ZNE->LQT'), ('ZNE', 'NE->RT'), (pick(rng, ['LQT', 'LQ', 'ZRT']), None),
                  (pick(rng, ['ZNE', 'LQT']), pick(rng, [None, ''])), ('NE', 'NE->RT')][lay]
    kw = {'rotate': rot}
    traces, sr, n = make(rng, note, comps)
    if rng.rand() < 0.4:
        kw['filter'] = pick(rng, [{'type': 'bandpass', 'freqmin': 0.1, 'freqmax': 0.4},
                                  {'type': 'lowpass', 'freq': 0.3, 'corners': 2, 'zerophase': True}])
    if rng.rand() < 0.4:
        kw['trim'] = pick(rng, [(-9, 12), (-8.5, 10), [-7, 9]])
    if rng.rand() < 0.35:
        kw['downsample'] = pick(rng, [1, 1., sr, 2 * sr, sr / 2, 2])
    k = rng.randint(5)
    if k == 0:
        kw['deconvolve'] = pick(rng, [None, False])
    elif k == 1:
        kw['deconvolve'] = 'waterlevel'
    elif k == 2 and n < 110:
        kw['deconvolve'] = 'iterative'
        kw['itmax'] = 5
    elif k == 3:
        kw['deconvolve'] = 'time'
        kw['spiking'] = 2.
    dec = kw.get('deconvolve', 'time')
    comps_final = 'LQT' if rot == 'ZNE->LQT' else 'RT' if comps == 'NE' else 'ZRT' if rot == 'NE->RT' else comps
    if dec:
        if rng.rand() < 0.4:
            kw['winsrc'] = pick(rng, [(-5, 10, 2), (-3, 7, 1)])
        if rng.rand() < 0.25 or comps_final == 'ZNE':
            kw['source_components'] = pick(rng, ['Z', 'ZL']) if 'Z' in comps_final else pick(rng, ['L', 'Q'])
        if comps_final == 'RT':
            kw['source_components'] = pick(rng, ['R', 'QR', 'T'])
        if rng.rand() < 0.2:
            kw['normalize'] = pick(rng, [None, 0, 1])
        if rng.rand() < 0.15:
            kw['response_components'] = 'LQ' if 'L' in comps_final else comps_final[0]
    how = pick(rng, ['arg', 'phase', 'phase'])
    ph = {'P': ['P', 'PP', 'p', 'P'], 'S': ['S', 'SKS', 'S', 's']}[method]
    phase = pick(rng, ph) if how == 'phase' else pick(rng, ['P', 'S'])
    for t in traces:
        t.stats.phase = phase
    if how == 'arg':
        kw['method'] = method
    note.update(phase=phase, **{k: str(v) for k, v in kw.items()})
    want = [t.copy() for t in traces]
    k2 = dict(kw)
    k2.pop('method', None)
    with quiet():
        try:
            want = pipeline(want, method, **k2)
        except Exception as ex:
            note['expected_error'] = repr(ex)
            if 'winsrc' in kw or 'trim' in kw or True:
                raise Skip()
        s = RFStream(traces)
        kin = dict(kw)
        r = s.rf(**kw)
    need(r is s, 'rf() returned another object')
    need(str(kw) == str(kin), 'arguments modified: %s', kw)
    compare(want, list(s), method)
    need(s.type == 'rf' and s.method == method, 'type %r method %r', s.type, s.method)


@case(14, 150)
def odd_groups(rng, note):
    """single traces and groups of four are neither rotated nor deconvolved, but typed (and mirrored for S)"""
    from rf import RFStream
    method = pick(rng, ['P', 'S'])
    traces, sr, n = make(rng, note, 'LQT', 2)
    extra = group(rng, pick(rng, ['Q', 'L', 'LQTR', 'TQLZ']), n=n, sr=sr, sta='ODD', onset_at=10 / sr)
    where = rng.randint(len(traces) + 1)
    traces = traces[:where] + extra + traces[where:]
    for t in traces:
        t.stats.phase = method
    want = pipeline([t.copy() for t in traces], method, rotate=None)
    s = RFStream(traces)
    note['traces'] = [t.id for t in traces]
    with quiet():
        s.rf(rotate=None)
    compare(want, list(s), method)


@case(14, 100)
def rejected(rng, note):
    """undetermined or unknown method raises ValueError and changes nothing"""
    from rf import RFStream
    traces, sr, n = make(rng, note, 'ZNE', 2)
    kw = {}
    k = rng.randint(4)
    if k == 0:
        for t in traces:
            del t.stats['phase']
    elif k == 1:
        for i, t in enumerate(traces):
            t.stats.phase = 'PS'[i % 2]
    elif k == 2:
        kw['method'] = pick(rng, ['Q', 'X', 'p', '', 'PS', 'Ps'])
    else:
        for t in traces:
            t.stats.phase = pick(rng, ['SKK', 'PKIKX'])
            traces[0].stats.phase = t.stats.phase
        for t in traces:
            t.stats.phase = traces[0].stats.phase
    note.update(kw=kw, phase=[t.stats.get('phase') for t in traces])
    kw.update(filter={'type': 'lowpass', 'freq': 0.2}, trim=(-5, 5))
    before = [snap(t) for t in traces]
    s = RFStream(traces)
    with quiet():
        raises(ValueError, s.rf, **kw)
    need(len(s) == len(traces), 'traces removed')
    for t, b in zip(traces, before):
        same_snap(b, snap(t), 'rejected call')


@case(6, 40)
def default_window(rng, note):
    """the default source window and source components are the ones of the method"""
    from rf import RFStream
    method = pick(rng, ['P', 'S'])
    dec = pick(rng, ['time', 'waterlevel', 'iterative'])
    start = rand_time(rng)
    n, sr = 160, 2.
    traces = group(rng, 'LQT', n=n, sr=sr, start=start, onset_at=25.)
    for t in traces:
        t.stats.phase = method
    note.update(method=method, deconvolve=dec)
    onset, L = 25., (n - 1) / sr
    win = {('P', 'time'): (-10, 30, 5), ('S', 'time'): (-10, 30, 5), ('P', 'iterative'): (-onset, L - onset, 0),
           ('S', 'iterative'): (-onset, L - onset, 0), ('P', 'waterlevel'): (-onset, L - onset, 5),
           ('S', 'waterlevel'): (-10, L - onset, 5)}[(method, dec)]
    kw = {'itmax': 4} if dec == 'iterative' else {}
    with quiet():
        a = RFStream([t.copy() for t in traces]).rf(rotate=None, deconvolve=dec, **kw)
        b = RFStream([t.copy() for t in traces]).rf(rotate=None, deconvolve=dec, winsrc=win,
                                                    source_components={'P': 'L', 'S': 'Q'}[method], **kw)
    for x, y in zip(a, b):
        need_close(x.data, y.data, 'default window %s %s' % (method, dec))
