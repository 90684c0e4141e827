"""C20: profile stacking averages per box and component without loss or mixing."""
import numpy as np
from rt.base import *
from rt.c19 import direct, bins_, angdiff


def first_box(ll, boxes, crs):
    """independent: first box whose polygon contains the point in the projection"""
    import cartopy.crs as ccrs
    from shapely.geometry import Point
    if crs is None:
        c = boxes[len(boxes) // 2]['latlon']
        crs = ccrs.AzimuthalEquidistant(c[1], c[0])
    pc = ccrs.PlateCarree()
    p = crs.project_geometry(Point(ll[1], ll[0]), pc)
    for i, b in enumerate(boxes):
        if p.within(crs.project_geometry(b['poly'], pc)):
            return i


def setup(rng, note, ntr=None):
    from rf.profile import get_profile_boxes
    ll0 = (rng.uniform(-50, 50), rng.uniform(-120, 120))
    az = rng.uniform(0, 360)
    b = bins_(rng)
    if rng.rand() < .2:     # very short boxes
        b = b[0] + np.hstack([[0.], np.cumsum(rng.uniform(.01, .08, len(b) - 1))])
    width = pick(rng, [50., 200., 1000.])
    boxes = get_profile_boxes(ll0, az, b, width=width)
    if rng.rand() < .3:     # overlapping boxes and any order: the first containing box counts
        boxes2 = get_profile_boxes(direct(ll0, az, b[0]), az, b - b[0] * 0.5, width=width)
        extra = [dict(x) for x in boxes2[rng.randint(len(boxes2)):]]
        for x in extra:
            x.pop('profile', None)
            x['pos'] = x['pos'] + 0.123
        boxes = boxes + extra
    n = int(rng.randint(5, 40))
    comps = pick(rng, ['Q', 'LQT', 'LQ', 'RTZ'])
    traces = []
    for k in range(ntr or int(rng.randint(1, 14))):
        c = pick(rng, comps)
        x = rng.uniform(b[0] - 20, b[-1] + 20)
        if rng.rand() < .5:
            j = rng.randint(len(b) - 1)
            x = (b[j] + b[j + 1]) / 2
        pp = direct(direct(ll0, az, x), az + 90, rng.uniform(-1, 1) * width * pick(rng, [.1, .4, .7]))
        tr = group(rng, c, n=n, sr=4., sta='S%d' % rng.randint(4), onset_at=rng.randint(0, n) / 4., type='rf')[0]
        tr.stats.pp_latitude, tr.stats.pp_longitude, tr.stats.pp_depth = pp[0], pp[1], 50.
        if rng.rand() < .5:
            tr.stats.moveout = 'Ps'
        if rng.rand() < .5:
            tr.stats.processing = ['a%d' % k]
        if rng.rand() < .2:
            del tr.stats[pick(rng, ['onset', 'slowness', 'phase'])]
        traces.append(tr)
    note.update(azimuth=az, bins=repr(b), traces=[(t.id, round(float(t.stats.pp_latitude), 3)) for t in traces], nboxes=len(boxes))
    return boxes, traces, (ll0, az, b, width)


def verify(r, traces, idx, boxes, geom):
    ll0, az, b, width = geom
    want = {}
    for t, i in zip(traces, idx):
        if i is not None:
            want.setdefault((t.stats.channel[-1], i), []).append(t)
    need(len(r) == len(want), '%d profile traces instead of %d', len(r), len(want))
    # sorted by component and position
    key = [(t.stats.channel, t.stats.box_pos) for t in r]
    need(key == sorted(key), 'not sorted: %s', key)
    seen = set()
    for t in r:
        c = t.stats.channel
        need(len(c) == 3, 'channel %r', c)
        m = [(k, v) for k, v in want.items() if k[0] == c[-1] and boxes[k[1]]['pos'] == t.stats.box_pos]
        need(len(m) == 1, 'profile trace %s at %s has no contributions', c, t.stats.box_pos)
        (k, us), = m
        need(k not in seen, 'two profile traces for %s', k)
        seen.add(k)
        box = boxes[k[1]]
        need_close(t.data, sum(u.data.astype(float) for u in us) / len(us), 'profile trace %s at %s of %d traces' % (c, t.stats.box_pos, len(us)))
        need(t.stats.num == len(us), 'num %r instead of %d', t.stats.num, len(us))
        need(t.stats.box_length == box['length'], 'box_length %r', t.stats.box_length)
        need((t.stats.box_latitude, t.stats.box_longitude) == tuple(box['latlon']), 'box coordinates')
        need((t.stats.profile_latitude, t.stats.profile_longitude) == tuple(ll0), 'profile coordinates %r', (t.stats.profile_latitude, t.stats.profile_longitude))
        need(t.stats.profile_azimuth == az, 'profile azimuth')
        need(abs(t.stats.profile_length - (b[-1] - b[0])) < 1e-9, 'profile length')
        need(t.stats.type == 'profile', 'type %r', t.stats.get('type'))
        need(t.stats.sampling_rate == us[0].stats.sampling_rate, 'sampling rate')
        need(any(('onset' in t.stats) == ('onset' in u.stats) and ('onset' not in u.stats or
             abs((t.stats.onset - t.stats.starttime) - (u.stats.onset - u.stats.starttime)) < 1e-6) for u in us), 'onset')
        for h in ('slowness', 'phase', 'moveout'):
            need(any((h in t.stats) == (h in u.stats) and (h not in u.stats or t.stats[h] == u.stats[h]) for u in us),
                 'header %s %r', h, t.stats.get(h))


def unshared(r, traces, keep):
    for t, k in zip(traces, keep):
        same_snap(k, snap(t), 'input trace')
    for t in r:
        need(not any(np.shares_memory(t.data, u.data) for u in traces), 'profile shares samples with input')
        t._internal_add_processing_info('later')
        t.data *= 2
    for t, k in zip(traces, keep):
        same_snap(k, snap(t), 'input trace after change of the profile')


@case(22, 400)
def real_boxes(rng, note):
    """real boxes and projection, random piercing points inside, beside and outside of the profile"""
    from rf import RFStream
    boxes, traces, geom = setup(rng, note)
    keep = [snap(t) for t in traces]
    crs = None
    kw = {}
    if rng.rand() < .3:
        import cartopy.crs as ccrs
        c = geom[0]
        kw['crs'] = crs = ccrs.AzimuthalEquidistant(c[1], c[0])
    idx = [first_box((t.stats.pp_latitude, t.stats.pp_longitude), boxes, crs) for t in traces]
    note['idx'] = repr(idx)
    s = RFStream(list(traces))
    with quiet():
        r = s.profile(boxes, **kw)
    need(isinstance(r, RFStream), 'result type')
    need([id(t) for t in s] == [id(t) for t in traces], 'input stream changed')
    verify(r, traces, idx, boxes, geom)
    unshared(r, traces, keep)


@case(14, 200)
def iterators(rng, note):
    """iterators and wrapped iterables instead of streams give the same profile; empty results"""
    from rf import RFStream
    from rf.profile import profile
    boxes, traces, geom = setup(rng, note)
    keep = [snap(t) for t in traces]
    idx = [first_box((t.stats.pp_latitude, t.stats.pp_longitude), boxes, None) for t in traces]

    class Bar(object):      # like tqdm
        def __init__(self, it):
            self.iterable = it

        def __iter__(self):
            return iter(self.iterable)
    how = pick(rng, ['generator', 'bar', 'list', 'iter'])
    note['how'] = how
    arg = {'generator': (t for t in traces), 'bar': Bar(RFStream(list(traces))), 'list': RFStream(list(traces)),
           'iter': iter(traces)}[how]
    with quiet():
        r = profile(arg, boxes)
    need(isinstance(r, RFStream), 'result type %s', type(r))
    verify(r, traces, idx, boxes, geom)
    unshared(r, traces, keep)


@case(10, 150)
def order(rng, note):
    """the order of the traces does not matter"""
    from rf import RFStream
    boxes, traces, geom = setup(rng, note)
    for t in traces:
        t.data = np.round(t.data * 64) / 64
        t.stats.onset = t.stats.starttime + 1
    with quiet():
        a = RFStream([t.copy() for t in traces]).profile(boxes)
        b = RFStream([traces[i].copy() for i in rng.permutation(len(traces))]).profile(boxes)
    need(len(a) == len(b), 'number of traces')
    for t, u in zip(a, b):
        need(t.stats.channel == u.stats.channel and t.stats.box_pos == u.stats.box_pos and t.stats.num == u.stats.num, 'order matters')
        need_close(t.data, u.data, 'samples', rtol=1e-12, atol=1e-12)
