"""C23: batch files are named from each trace's own metadata and found again."""
import glob
import os
import numpy as np
from rt.base import *
from rt.c22 import dataset, silent, paths, TFMT, same_stream


def tree():
    return sorted(p for p in glob.glob('**', recursive=True) if os.path.isfile(p))


def sid(t):
    return '%s.%s.%s' % (t.stats.network, t.stats.station, t.stats.location)


def content(fmt, files):
    from rf import read_rf, RFStream
    out = RFStream()
    for f in files:
        if not f.endswith('.QBN'):
            out += read_rf(f, fmt)
    return out


def match(got, want, what):
    """every trace of want is stored exactly once (matched by id, event time / box and samples)"""
    need(len(got) == len(want), '%s: %d traces stored instead of %d', what, len(got), len(want))
    left = list(got)
    for w in want:
        for g in left:
            if g.id == w.id and len(g) == len(w) and close(g.data, w.data, 1e-3, 1e-4 * np.max(np.abs(w.data))):
                left.remove(g)
                break
        else:
            need(False, '%s: trace %s is not stored', what, w.id)


@case(30, 600)
def naming(rng, note):
    """write to new and existing outputs: names from the metadata, no trace dropped"""
    from rf import RFStream
    from rf.batch import write
    fmt = pick(rng, ['SAC', 'SAC', 'Q', 'H5'])
    typ = pick(rng, [None, None, 'stack', 'profile'])
    arg = pick(rng, [fmt, fmt, fmt.lower()])
    root = pick(rng, ['out', os.path.join('a', 'b', 'out'), 'o.ut'])
    note.update(format=arg, type=typ, root=root)
    with scratch() as d, silent():
        if rng.rand() < .5 and fmt != 'Q':
            os.makedirs(root if fmt == 'SAC' else os.path.dirname(root) or '.', exist_ok=True)
        inv, evs, codes, recs, streams = dataset(rng, comps=pick(rng, ['LQT', 'ZNE', 'Q']))
        want_files, all_ = set(), []
        if typ is None:
            for (i, j), s in streams.items():
                write(s, root, arg)
                all_ += list(s)
                for t in s:
                    x = t.stats.event_time.datetime.strftime(TFMT)
                    want_files |= {'SAC': {os.path.join(root, sid(t), '%s_%s.SAC' % (t.id, x))}, 'H5': {root + '.h5'},
                                   'Q': {os.path.join(root, sid(t), '%s_%s.%s' % (sid(t), x, e)) for e in ('QHD', 'QBN')}}[fmt]
        elif typ == 'stack':
            for i, c in enumerate(codes):
                s = RFStream([t for j in range(len(recs)) for t in streams[i, j]]).stack()
                write(s, root, arg, type='stack')
                all_ += list(s)
                for t in s:
                    want_files |= {'SAC': {os.path.join(root, t.id + '.SAC')}, 'H5': {root + '.h5'},
                                   'Q': {os.path.join(root, '%s.%s' % (sid(t), e)) for e in ('QHD', 'QBN')}}[fmt]
        else:
            s = RFStream()
            for k in range(1 + rng.randint(3)):
                for t in streams[0, 0].copy():
                    t.stats.update({'box_pos': 5. + 10 * k, 'box_length': 10., 'type': 'profile', 'network': '', 'station': '',
                                    'location': '', 'channel': '??' + t.stats.channel[-1]})
                    t.data = t.data + k
                    del t.stats['event_time']
                    s.append(t)
            write(s, root, arg, type='profile')
            all_ = list(s)
            for t in s:
                want_files |= {'SAC': {os.path.join(root, 'profile_%s_%s.SAC' % (t.stats.channel[-1], t.stats.box_pos))},
                               'H5': {root + '.h5'}, 'Q': {root + '.QHD', root + '.QBN'}}[fmt]
        files = tree()
        note['files'] = len(files)
        need(set(files) == want_files, 'files %s instead of %s', files[:4], sorted(want_files)[:4])
        got = content(fmt, files)
        match(got, all_, 'stored')
        # an empty stream writes nothing
        write(RFStream(), root + 'x', arg, type=typ)
        need(tree() == files, 'empty stream wrote files')


@case(30, 400)
def reading(rng, note):
    """reading visits every station and event once and skips unreadable files"""
    from rf.batch import iter_event_processed_data, write
    fmt = pick(rng, ['SAC', 'Q', 'H5', 'SAC'])
    yt = bool(rng.randint(2))
    with_events = rng.rand() < .7
    with scratch() as d, silent():
        inv, evs, codes, recs, streams = dataset(rng, 1 + rng.randint(3), 1 + rng.randint(3))
        avail = {}
        bad = []
        for k, s in streams.items():
            mode = pick(rng, ['ok', 'ok', 'ok', 'missing', 'corrupt'])
            if fmt == 'H5' and mode == 'corrupt' or (not with_events and mode == 'corrupt'):
                mode = 'ok'
            if mode == 'missing':
                continue
            write(s, 'in', fmt)
            if mode == 'corrupt':
                for t in s:
                    fn = paths('in', fmt, codes[k[0]], recs[k[1]], t.stats.channel)
                    with open(fn, 'wb') as f:
                        f.write(pick(rng, [b'', b'no waveform data', b'\x00' * 50]))
                bad.append(k)
            else:
                avail[k] = s
        if rng.rand() < .3:      # further files which do not belong to the selection
            other = streams[0, 0].copy()
            for t in other:
                t.stats.station = 'OTHER'
            write(other, 'in', fmt)
        note.update(format=fmt, yield_traces=yt, events=with_events, available=repr(sorted(avail)), corrupt=repr(bad), stations=repr(codes))

        class Bar:
            n, total = 0, None

            def update(self, k=1):
                self.n += k
        bar = Bar()
        ev = evs if with_events else None
        got = list(iter_event_processed_data(ev, inv, 'in', fmt, yield_traces=yt, pbar=bar))
        need(bar.n == len(codes) * (len(evs) if with_events else 1) and bar.total == bar.n, 'visited %s of %s', bar.n, bar.total)
        flat = got if yt else [t for s in got for t in s]
        want = [t for s in avail.values() for t in s]
        match(flat, want, 'read')
        if not yt:
            need(all(len(s) for s in got), 'empty stream delivered')
            # one stream per visited pair
            keys = [(codes[i][:3], j if with_events else None) for i, j in avail]
            need(len(got) == len(set(keys)), '%d streams instead of %d', len(got), len(set(keys)))
            for s in got:
                need(len({sid(t) for t in s}) == 1, 'stations are mixed')
                if with_events:
                    need(len({t.stats.event_time.datetime.strftime(TFMT) for t in s}) == 1, 'events are mixed')


@case(10, 100)
def metadata(rng, note):
    """iter_event_metadata delivers every station (and event) once with its codes and origin time"""
    from rf.util import iter_event_metadata
    with silent():
        inv, evs, codes, recs, streams = dataset(rng, 1 + rng.randint(3), 1 + rng.randint(3))
        note.update(stations=repr(codes), events=len(evs))
        if rng.rand() < .6:
            got = [(m['network'], m['station'], m['location'], m['event_time'].timestamp) for m in iter_event_metadata(evs, inv)]
            want = [c[:3] + (r[2].timestamp,) for c in codes for r in recs]
        else:
            got = [(m['network'], m['station'], m['location']) for m in iter_event_metadata(None, inv)]
            need(all('event_time' not in m for m in iter_event_metadata(None, inv)), 'event time without events')
            want = [c[:3] for c in codes]
    need(sorted(got) == sorted(want), 'delivered %s instead of %s', sorted(got), sorted(want))
