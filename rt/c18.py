"""C18: stacking averages the traces of each id and nothing else."""
import numpy as np
from rt.base import *


@case(60, 1200)
def stack(rng, note):
    """random streams with repeated ids and differing headers"""
    from rf import RFStream
    n = int(rng.randint(3, 60))
    nids = int(rng.randint(1, 5))
    ids = []
    while len(ids) < nids:
        i = (pick(rng, ['XX', 'YY', '']), pick(rng, ['AAA', 'BBB', 'AAB', '']), pick(rng, ['', '00', '10']), pick(rng, ['BH', 'BH', 'HH', '??']) + pick(rng, 'LQTZ'))
        if i not in ids:
            ids.append(i)
    npts = {i: (n if rng.rand() < .7 else int(rng.randint(3, 60))) for i in ids}
    traces = []
    for k in range(int(rng.randint(nids, 10))):
        i = ids[k] if k < nids else pick(rng, ids)
        tr = group(rng, i[3][-1], n=npts[i], net=i[0], sta=i[1], loc=i[2], onset_at=rng.randint(0, npts[i]) / 4.)[0]
        tr.stats.phase = pick(rng, ['P', 'S'])
        tr.stats.channel = i[3]
        tr.data = np.round(tr.data * 64) / 64 if rng.rand() < .5 else tr.data
        if rng.rand() < .5:
            tr.stats.moveout = pick(rng, ['Ps', 'Sp'])
        if rng.rand() < .3:
            for h in ('station_latitude', 'phase', 'onset', 'station_elevation'):
                if rng.rand() < .5:
                    del tr.stats[h]
        if rng.rand() < .5:
            tr.stats.processing = ['a%d' % k, 'b']
        if rng.rand() < .2:
            tr.data = tr.data.astype(pick(rng, [np.float32, np.int32]))
        traces.append(tr)
    order = list(rng.permutation(len(traces)))
    traces = [traces[k] for k in order]
    note.update(ids=repr(ids), traces=[t.id for t in traces], n=repr(npts))
    keep = [snap(t) for t in traces]
    s = RFStream(list(traces))
    with quiet():
        r = s.stack()
    need(isinstance(r, RFStream) and r is not s, 'result type')
    need([id(t) for t in s] == [id(t) for t in traces], 'input stream changed')
    for t, k in zip(traces, keep):
        same_snap(k, snap(t), 'input trace')
    want = sorted(set(t.id for t in traces))
    need(sorted(t.id for t in r) == want, 'ids %s instead of %s', [t.id for t in r], want)
    for t in r:
        mine = [u for u in traces if u.id == t.id]
        d = sum(u.data.astype(float) for u in mine) / len(mine)
        need_close(t.data, d, 'stack of %s (%d traces)' % (t.id, len(mine)), rtol=1e-5 if any(u.data.dtype == np.float32 for u in mine) else 1e-9, atol=1e-9)
        for u in mine:      # headers are those of one trace with this id
            ok = t.stats.sampling_rate == u.stats.sampling_rate
            for h in ('phase', 'moveout', 'station_latitude', 'station_longitude', 'station_elevation'):
                ok = ok and (h in t.stats) == (h in u.stats) and (h not in u.stats or t.stats[h] == u.stats[h])
            if ('onset' in u.stats) != ('onset' in t.stats):
                ok = False
            elif 'onset' in u.stats:
                ok = ok and abs((t.stats.onset - t.stats.starttime) - (u.stats.onset - u.stats.starttime)) < 1e-6
            if ok:
                break
        else:
            need(False, 'headers of stack %s are not those of a trace with this id: %r', t.id, dict(t.stats))
        need(not any(np.shares_memory(t.data, u.data) for u in traces), 'stack shares samples with input')
    # later changes of the stack leave the input alone
    for t in r:
        t.data *= 2
        t._internal_add_processing_info('later')
        for k in list(t.stats):
            if isinstance(t.stats[k], list):
                t.stats[k].append('x')
    for t, k in zip(traces, keep):
        same_snap(k, snap(t), 'input trace after change of the stack')


@case(10, 100)
def twice(rng, note):
    """stacking a stack returns it; order of traces does not matter"""
    from rf import RFStream
    traces = group(rng, 'LQT', n=20) + group(rng, 'LQ', n=20)
    for t in traces:
        t.data = np.round(t.data * 256) / 256
    note['ids'] = [t.id for t in traces]
    a = RFStream([t.copy() for t in traces]).stack()
    b = RFStream([t.copy() for t in traces[::-1]]).stack()
    c = a.stack()
    for x in (b, c):
        need(sorted(t.id for t in x) == sorted(t.id for t in a), 'ids')
        for t in a:
            u = [v for v in x if v.id == t.id][0]
            need_close(u.data, t.data, 'stack of ' + t.id, rtol=1e-9, atol=1e-9)
