"""C09: S receiver functions are mirrored exactly at the onset, P are not."""
import numpy as np
from rt.base import *


@case(60, 1500)
def mirror(rng, note):
    """rf() without rotation and deconvolution: only the mirror step (and the sign of Q) is visible"""
    from rf import RFStream
    method = pick(rng, ['S', 'S', 'P'])
    traces = []
    for i in range(1 + rng.randint(3)):
        n = int(pick(rng, [1, 2, 3, 40, 41, 100]))
        sr = pick(rng, SRS + [3.])
        pos = pick(rng, [0., (n - 1) / sr, (n // 2) / sr, rng.uniform(0, max(1, n) / sr), -3., n / sr + 5])
        traces += group(rng, pick(rng, ['LQT', 'Q', 'ZRT', 'L', 'RT']), n=n, sr=sr, sta='S%d' % i, onset_at=pos)
        if n == 1:
            for t in traces:
                pass
    how = pick(rng, ['phase', 'arg', 'other'])
    for t in traces:
        t.stats.phase = {'P': 'S', 'S': 'P'}[method] if how == 'other' else method
        if rng.rand() < 0.2:
            t.data = t.data.astype(pick(rng, [np.float32, np.int32]))
    note.update(method=method, traces=[(t.id, len(t), t.stats.sampling_rate, t.stats.onset - t.stats.starttime) for t in traces])
    before = [(t.data.copy(), t.stats.starttime, t.stats.endtime, t.stats.onset, t.stats.delta) for t in traces]
    s = RFStream(list(traces))
    with quiet():
        s.rf(rotate=None, deconvolve=None, **({} if how == 'phase' else {'method': method}))
    need(len(s) == len(traces), 'number of traces')
    for t, (d, t1, t2, on, dt) in zip(s, before):
        sign = -1 if t.stats.channel[-1] == 'Q' else 1
        need(t.stats.starttime == t1 and abs(t.stats.endtime - t2) < 1e-6, 'trace window changed')
        if method == 'P':
            need(np.array_equal(t.data, sign * d) and t.stats.onset == on, '%s: P trace modified', t.id)
            continue
        need(t.data.shape == d.shape, 'length changed')
        need(np.array_equal(t.data, sign * d[::-1]), '%s: samples are not the time reversed ones', t.id)
        need(abs((t.stats.onset - t1) - (t2 - on)) < 2e-6, '%s: onset %s s after start instead of %s', t.id,
             t.stats.onset - t1, t2 - on)
        # sample at time x after the old onset is at -x relative to the new onset
        for i in {0, len(d) // 2, len(d) - 1}:
            x = (t1 + i * dt) - on
            j = int(round(((t.stats.onset - t1) - x) / dt))
            need(0 <= j < len(d) and t.data[j] == sign * d[i], '%s: sample at %s s not found at %s s', t.id, x, -x)


@case(8, 60)
def deconvolved(rng, note):
    """with deconvolution the S result is the mirror image of the unmirrored deconvolution"""
    from rf import RFStream
    from rf.deconvolve import deconvolve
    n, sr = int(rng.randint(80, 131)), 2.
    traces = group(rng, 'LQT', n=n, sr=sr, onset_at=int(rng.randint(30, 60)) / sr)
    for t in traces:
        t.stats.phase = 'S'
    note.update(n=n)
    ref = RFStream([t.copy() for t in traces])
    for t in ref:
        if t.stats.channel[-1] == 'Q':
            t.data = -t.data
    with quiet():
        ref = deconvolve(ref, method='time', source_components='QR', winsrc='S')
        s = RFStream(traces).rf(rotate=None)
    for a, b in zip(ref, s):
        need_close(b.data, a.data[::-1], 'mirrored deconvolution')
        need(abs((b.stats.onset - b.stats.starttime) - (a.stats.endtime - a.stats.onset)) < 2e-6, 'onset')
