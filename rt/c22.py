"""C22: batch commands process every stream with the requested steps and options."""
import contextlib
import glob
import io
import json
import os
import sys
import numpy as np
from rt.base import *
from rt.c03 import make_event
from rt.c06 import inventory

TFMT = '%Y-%m-%dT%H:%M:%S'
MAPPED = ['onset', 'event_time', 'type', 'phase', 'moveout', 'slowness', 'back_azimuth', 'inclination', 'distance']


@contextlib.contextmanager
def silent():
    with quiet(), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


def dataset(rng, nst=None, nev=None, phase='P', comps='ZNE'):
    """inventory, events, {(station index, event index): RFStream} with ray headers"""
    from rf import RFStream
    nst, nev = nst or 1 + rng.randint(2), nev or 1 + rng.randint(3)
    base = utc(T0 + 10 * rng.randint(10 ** 6))
    codes = [(pick(rng, ['XX', 'YY']), 'ST%d' % i, pick(rng, ['', '00']), 0., i * .5, 100., 'ZNE', None, None)
             for i in range(nst)]
    recs = [((float(rng.uniform(-5, 5)), float(rng.uniform(60, 80))), 30., base + 4000 * j + rng.randint(500), 6.)
            for j in range(nev)]
    evs = [make_event(rng, *r) for r in recs]
    streams = {}
    for i, c in enumerate(codes):
        for j, r in enumerate(recs):
            onset = r[2] + 600
            g = group(rng, comps, n=160, sr=4., sta=c[1], loc=c[2], net=c[0], onset_at=15., start=onset - 15.,
                      extra={'event_time': r[2], 'event_latitude': r[0][0], 'event_longitude': r[0][1],
                             'event_depth': r[1], 'event_magnitude': r[3], 'station_latitude': c[3],
                             'station_longitude': c[4], 'station_elevation': c[5], 'phase': phase,
                             'slowness': float(rng.uniform(5, 8))})
            sl, baz = float(rng.uniform(5, 8)), float(rng.uniform(0, 360))
            for t in g:
                t.data = t.data + 5 * np.exp(-((np.arange(160) / 4. - 15) / 1.) ** 2) * rng.uniform(.5, 2)
                t.stats.slowness, t.stats.back_azimuth = sl, baz
            streams[i, j] = RFStream(g)
    return inventory(rng, codes), evs, codes, recs, streams


def paths(root, fmt, c, r, channel='???'):
    """file name pattern of a station and an event as documented"""
    sid = '%s.%s.%s' % c[:3]
    t = r[2].datetime.strftime(TFMT)
    return {'Q': os.path.join(root, sid, '%s_%s.QHD' % (sid, t)),
            'SAC': os.path.join(root, sid, '%s.%s_%s.SAC' % (sid, channel, t)), 'H5': root + '.h5'}[fmt]


def store(root, fmt, codes, recs, streams, skip=()):
    for (i, j), s in streams.items():
        if (i, j) in skip:
            continue
        fn = paths(root, fmt, codes[i], recs[j])
        os.makedirs(os.path.dirname(fn) or '.', exist_ok=True)
        if fmt == 'SAC':
            for t in s:
                t.write(paths(root, fmt, codes[i], recs[j], t.stats.channel), 'SAC')
        elif fmt == 'H5':
            s.write(fn, 'H5', mode='a', ignore=('mseed',))
        else:
            s.write(fn, fmt)


def fetch(root, fmt, c, r):
    """stream stored for a station and event (or None)"""
    from rf import read_rf
    fn = paths(root, fmt, c, r)
    if fmt == 'H5':
        if not os.path.exists(fn):
            return None
        try:
            s = read_rf(fn, 'H5')
        except Exception:
            return None
        s.traces = [t for t in s if (t.stats.network, t.stats.station, t.stats.location) == c[:3] and
                    abs(t.stats.event_time - r[2]) < 1]
        return s if len(s) else None
    if not glob.glob(fn.replace('[', '[[]')):
        return None
    return read_rf(fn, fmt)


def same_stream(got, want, what):
    need(got is not None and len(got) > 0, '%s: no result', what)
    gi, wi = {t.id: t for t in got}, {t.id: t for t in want}
    need(len(gi) == len(got) and sorted(gi) == sorted(wi), '%s: traces %s instead of %s', what, sorted(gi), sorted(wi))
    for k, w in wi.items():
        t = gi[k]
        need(len(t) == len(w), '%s %s: %d samples instead of %d', what, k, len(t), len(w))
        need_close(t.data, w.data, '%s %s' % (what, k), rtol=1e-3, atol=1e-4 * (1e-9 + np.max(np.abs(w.data))))
        for h in MAPPED:
            need((h in t.stats) == (h in w.stats), '%s %s: header %s %r instead of %r', what, k, h, t.stats.get(h), w.stats.get(h))
            if h in w.stats:
                a, b = t.stats[h], w.stats[h]
                if h in ('onset', 'event_time'):
                    need(abs(a - b) < 0.01, '%s %s: %s %s instead of %s', what, k, h, a, b)
                elif isinstance(b, str):
                    need(a == b, '%s %s: %s %r instead of %r', what, k, h, a, b)
                else:
                    need(abs(a - b) < 1e-3 * (1 + abs(b)), '%s %s: %s %r instead of %r', what, k, h, a, b)


def rf_options(rng):
    o = {'deconvolve': pick(rng, ['waterlevel', 'time', 'waterlevel']), 'rotate': pick(rng, ['ZNE->LQT', 'NE->RT'])}
    if rng.rand() < .6:
        o['trim'] = [-float(rng.randint(5, 10)), float(rng.randint(12, 20))]
    if rng.rand() < .4:
        o['filter'] = {'type': 'bandpass', 'freqmin': .1, 'freqmax': 1.}
    if o['deconvolve'] == 'waterlevel' and rng.rand() < .5:
        o['waterlevel'] = .1
    if rng.rand() < .3:
        o['winsrc'] = [-3, 6, 1]
    return o


def mo_options(rng):
    o = {}
    if rng.rand() < .5:
        o['phase'] = pick(rng, ['Ps', 'Ppps', 'Ppss'])
    if rng.rand() < .5:
        o['ref'] = pick(rng, [6.4, 5., 7.])
    return o


def apply(stream, cmds, kw_rf, kw_mo):
    for c in cmds:
        if c == 'calc':
            stream.rf(**kw_rf)
        elif c == 'moveout':
            stream.moveout(**kw_mo)
    return stream


FMT = ['Q', 'SAC', 'H5', 'SAC', 'Q']


@case(8, 150)
def from_disc(rng, note):
    """calc, moveout and calc moveout applied to stored streams; run_commands, run with configuration file, command line"""
    from rf.batch import run_commands, run, run_cli
    cmds = pick(rng, [['calc'], ['calc', 'moveout'], ['calc', 'moveout'], ['moveout']])
    fmt, how = pick(rng, FMT), pick(rng, ['commands', 'run', 'cli'])
    kw_rf, kw_mo = rf_options(rng), mo_options(rng)
    note.update(commands=cmds, format=fmt, how=how, rf=repr(kw_rf), moveout=repr(kw_mo))
    with scratch() as d, silent():
        inv, evs, codes, recs, streams = dataset(rng)
        skip = {k for k in streams if rng.rand() < .15}
        if len(skip) == len(streams):
            skip = set()
        note.update(stations=repr(codes), events=len(evs), missing=repr(sorted(skip)))
        if cmds == ['moveout']:
            for s in streams.values():
                s.rf(**kw_rf)
        store('in', fmt, codes, recs, streams, skip)
        if how == 'commands':
            run_commands(cmds[0], cmds[1:], events=evs, inventory=inv, path_in='in', path_out='out', format=fmt,
                         rf=json.loads(json.dumps(kw_rf)), moveout=dict(kw_mo))
        else:
            from obspy.core.event import Catalog
            Catalog(evs).write('ev.xml', 'QUAKEML')
            inv.write('inv.xml', 'STATIONXML')
            conf = {'events': 'ev.xml', 'inventory': 'inv.xml', 'format': fmt, 'rf': kw_rf, 'moveout': kw_mo}
            # options on the command line override the configuration file
            over = {}
            if rng.rand() < .5:
                conf['rf'] = {'deconvolve': 'iterative', 'rotate': 'xxx'}
                over['rf'] = kw_rf
            if rng.rand() < .5:
                conf['format'] = {'Q': 'SAC', 'SAC': 'H5', 'H5': 'Q'}[fmt]
                over['format'] = fmt
            if rng.rand() < .3:
                conf['moveout'] = {'ref': 9.}
                over['moveout'] = kw_mo
            if rng.rand() < .4:     # the phase given alone wins over the phase of the options
                mp = pick(rng, ['Ps', 'Ppps', 'Ppss'])
                where = conf['moveout'] = dict(conf['moveout'])
                where['phase'] = pick(rng, ['Sp', 'Ppps', 'Ppss', 'Ps'])
                kw_mo = dict(kw_mo, phase=mp)
                over['moveout_phase'] = mp
            txt = '# comment\n' + json.dumps(conf, indent=2).replace('\n', ' # a comment: "{[,\n', 3) + '\n# "rf": 5\n'
            note['over'] = repr(sorted(over))
            with open('conf.json', 'w') as f:
                f.write(txt)
            if how == 'run':
                run(cmds[0], conf='conf.json', commands=cmds[1:], path_in='in', path_out='out', **over)
            else:
                args = []
                for k, v in over.items():
                    args += ['--' + k.replace('_', '-'), v if k in ('format', 'moveout_phase') else json.dumps(v)]
                if rng.rand() < .5:
                    args += ['-c', 'conf.json']
                run_cli(args + cmds + ['in', 'out'])
        for (i, j), s in streams.items():
            got = fetch('out', fmt, codes[i], recs[j])
            what = 'event %d station %d' % (j, i)
            if (i, j) in skip:
                need(got is None, '%s: a result without input', what)
                continue
            want = apply(fetch('in', fmt, codes[i], recs[j]), cmds, kw_rf, kw_mo)
            same_stream(got, want, what)
        need(set(os.listdir('.')) - {'in', 'out', 'in.h5', 'out.h5', 'ev.xml', 'inv.xml', 'conf.json'} == set(),
             'unexpected files %s', os.listdir('.'))


@case(6, 80)
def history(rng, note):
    """options given to one call do not affect later calls in the same process"""
    from rf.batch import run_commands, run
    with scratch() as d, silent():
        inv, evs, codes, recs, streams = dataset(rng, nst=1, nev=1)
        for s in streams.values():
            s.rf(deconvolve='waterlevel')
        store('in', 'SAC', codes, recs, streams)
        kw = dict(events=evs, inventory=inv, path_in='in', format='SAC')
        firsts = [{'moveout_phase': 'Ppps'}, {'moveout': {'ref': 9., 'phase': 'Ppss'}}, {'moveout': '{"ref": 5.0}'},
                  {'moveout': {'ref': 8.}, 'moveout_phase': 'Ppss'}, {}]
        first, last = pick(rng, firsts), pick(rng, [{}, {}, {'moveout_phase': 'Ps'}, {'moveout': {'ref': 7.}}])
        note.update(first=repr(first), last=repr(last))
        for k, o in enumerate([first, last]):
            o = json.loads(json.dumps(o))
            out = 'out%d' % k
            if rng.rand() < .3:
                with open('conf%d.json' % k, 'w') as f:
                    f.write('{} # comment')
                run('moveout', conf='conf%d.json' % k, path_out=out, **dict(kw, **o))
            else:
                run_commands('moveout', path_out=out, **dict(kw, **o))
        o = last.get('moveout', {})
        o = dict(o)
        if 'moveout_phase' in last:
            o['phase'] = last['moveout_phase']
        want = apply(fetch('in', 'SAC', codes[0], recs[0]), ['moveout'], {}, o)
        same_stream(fetch('out1', 'SAC', codes[0], recs[0]), want, 'after a call with %s' % first)


@case(3, 60)
def retrieve(rng, note):
    """data, data calc, data calc moveout, data moveout: provider streams with the requested steps"""
    from rf import iter_event_data
    from rf.batch import run_commands
    cmds = pick(rng, [[], ['calc'], ['calc', 'moveout'], ['calc', 'moveout']])
    fmt = pick(rng, FMT)
    kw_rf, kw_mo = rf_options(rng), mo_options(rng)
    kw_rf.pop('trim', None)
    with scratch() as d, silent():
        inv, evs, codes, recs, streams = dataset(rng)
        opts = {'request_window': [-20, 40]}
        if rng.rand() < .5:
            opts['pad'] = 5
        phase = None
        kw = {}
        if rng.rand() < .4:
            kw['phase'] = opts['phase'] = 'P'
        if rng.rand() < .4:
            kw['moveout_phase'] = kw_mo['phase'] = pick(rng, ['Ps', 'Ppps'])
        note.update(commands=cmds, format=fmt, rf=repr(kw_rf), moveout=repr(kw_mo), options=repr(opts), kw=repr(kw))
        rs = int(rng.randint(10 ** 6))

        def gw(network, station, location, channel, starttime, endtime, event=None):
            from obspy import Stream, Trace
            r = np.random.RandomState((rs + int(starttime.timestamp)) % (2 ** 31) + len(station) + ord(station[-1]))
            n = int(round((endtime - starttime) * 4)) + 1
            if r.rand() < .1:
                raise ValueError('no data')
            return Stream([Trace(r.randn(n) + 5 * np.exp(-((np.arange(n) - n // 3) / 4.) ** 2),
                                 {'network': network, 'station': station, 'location': location, 'channel': 'BH' + c,
                                  'starttime': starttime, 'sampling_rate': 4.}) for c in 'ZNE'])
        o1 = {k: v for k, v in opts.items() if k not in kw}
        run_commands('data', cmds, events=evs, inventory=inv, get_waveforms=gw, path_out='out', format=fmt,
                     options=o1, rf=json.loads(json.dumps(kw_rf)),
                     moveout={k: v for k, v in kw_mo.items() if not (k == 'phase' and 'moveout_phase' in kw)}, **kw)
        want = {}
        for s in iter_event_data(evs, inv, gw, **opts):
            want[s[0].stats.station, int(s[0].stats.event_time.timestamp)] = apply(s, cmds, kw_rf, kw_mo)
        for i, c in enumerate(codes):
            for j, r in enumerate(recs):
                got = fetch('out', fmt, c, r)
                w = want.get((c[1], int(r[2].timestamp)))
                if w is None:
                    need(got is None, 'a result without data')
                else:
                    if fmt != 'H5':
                        from rf import read_rf
                    same_stream(got, w, 'event %d station %d' % (j, i))


@case(5, 80)
def other_commands(rng, note):
    """stack, profile and convert write the result for every stream"""
    from rf import read_rf, RFStream
    from rf.batch import run_commands
    from rf.profile import get_profile_boxes
    fmt = pick(rng, FMT)
    kind = pick(rng, ['stack', 'convert', 'profile'])
    with scratch() as d, silent():
        inv, evs, codes, recs, streams = dataset(rng, comps='LQT')
        for s in streams.values():
            for t in s:
                t.stats.type = 'rf'
                t.stats.moveout = 'Ps'
                t.stats.pp_latitude, t.stats.pp_longitude, t.stats.pp_depth = 0., float(rng.uniform(-.4, .8)), 50.
        note.update(kind=kind, format=fmt, stations=repr(codes), events=len(evs))
        store('in', fmt, codes, recs, streams)
        if kind == 'convert':
            new = pick(rng, ['Q', 'SAC', 'H5'])
            note['newformat'] = new
            run_commands('convert', events=evs, inventory=inv, path_in='in', path_out='out', format=fmt, newformat=new)
            for (i, j), s in streams.items():
                same_stream(fetch('out', new, codes[i], recs[j]), fetch('in', fmt, codes[i], recs[j]), 'converted')
        elif kind == 'stack':
            run_commands('stack', inventory=inv, path_in='in', path_out='out', format=fmt)
            for i, c in enumerate(codes):
                allt = RFStream([t for j in range(len(recs)) for t in streams[i, j]])
                want = allt.stack()
                sid = '%s.%s.%s' % c[:3]
                fn = {'Q': os.path.join('out', sid + '.QHD'), 'SAC': os.path.join('out', sid + '.*.SAC'), 'H5': 'out.h5'}[fmt]
                need(glob.glob(fn), 'no stack of %s', sid)
                got = read_rf(fn, fmt)
                got.traces = [t for t in got if t.id.rsplit('.', 1)[0] == sid]
                need(len(got) == len(want), '%d stacks instead of %d', len(got), len(want))
                for w in want:
                    g = [t for t in got if t.id == w.id]
                    need(len(g) == 1, 'stack of %s', w.id)
                    need_close(g[0].data, w.data, 'stack of ' + w.id, rtol=1e-3, atol=1e-4 * np.max(np.abs(w.data)))
        else:
            boxes = {'latlon0': [0., -.3], 'azimuth': 90}
            bb = [0, 90, pick(rng, [3, 5])]
            run_commands('profile', events=evs, inventory=inv, path_in='in', path_out='out', format=fmt, boxbins=bb, boxes=dict(boxes))
            allt = RFStream([t.copy() for s in streams.values() for t in s])
            want = allt.profile(get_profile_boxes(bins=np.linspace(*bb), **boxes))
            if not len(want):
                return
            got = {'Q': lambda: read_rf('out.QHD', 'Q'), 'H5': lambda: read_rf('out.h5', 'H5'),
                   'SAC': lambda: read_rf(os.path.join('out', 'profile_*.SAC'), 'SAC')}[fmt]()
            need(len(got) == len(want), '%d profile traces instead of %d', len(got), len(want))
            for w in want:
                g = [t for t in got if t.stats.channel[-1] == w.stats.channel[-1] and abs(t.stats.box_pos - w.stats.box_pos) < 1e-3]
                need(len(g) == 1, 'profile trace at %s', w.stats.box_pos)
                need_close(g[0].data, w.data, 'profile trace', rtol=1e-3, atol=1e-4 * np.max(np.abs(w.data)))


@case(16, 150)
def rejected(rng, note):
    """naming a step twice and unknown options are rejected before anything is read or written"""
    from rf.batch import run_commands, run, run_cli
    calls = []

    def gw(**k):
        calls.append(k)
        raise ValueError

    kind = pick(rng, ['twice', 'twice', 'unknown', 'unknown_conf', 'cli'])
    with scratch() as d, silent():
        inv, evs, codes, recs, streams = dataset(rng, 1, 1)
        store('in', 'SAC', codes, recs, streams)
        before = sorted(glob.glob('**', recursive=True))
        kw = dict(events=evs, inventory=inv, path_in='in', path_out='out', format='SAC')
        bad = pick(rng, ['water', 'Rf', 'option', 'trim', 'foo', 'box_bins'])
        note.update(kind=kind, bad=bad)
        if kind == 'twice':
            c = pick(rng, [('data', ['calc', 'calc']), ('data', ['moveout', 'moveout']), ('calc', ['moveout', 'moveout']),
                           ('data', ['calc', 'moveout', 'calc']), ('data', ['calc', 'moveout', 'moveout']), ('data', ['moveout', 'calc', 'moveout'])])
            note['commands'] = repr(c)
            if c[0] == 'data':
                kw['get_waveforms'] = gw
                kw.pop('path_in')
            raises(Exception, run_commands, *c, **kw)
        elif kind == 'cli':
            from obspy.core.event import Catalog
            Catalog(evs).write('ev.xml', 'QUAKEML')
            inv.write('inv.xml', 'STATIONXML')
            with open('conf.json', 'w') as f:
                f.write(json.dumps({'events': 'ev.xml', 'inventory': 'inv.xml', 'format': 'SAC', 'data': 'nofile'}))
            before = sorted(glob.glob('**', recursive=True))
            raises(SystemExit, lambda: _exit(run_cli, pick(rng, [['data', 'calc', 'calc', 'out'], ['calc', 'moveout', 'moveout', 'in', 'out'],
                                             ['data', 'moveout', 'calc', 'moveout', 'out']])))
        elif kind == 'unknown':
            raises(Exception, run_commands, pick(rng, ['calc', 'moveout', 'stack', 'profile']), **dict(kw, **{bad: {}}))
        else:
            with open('conf.json', 'w') as f:
                f.write(json.dumps({bad: 5, 'format': 'SAC'}))
            before = sorted(glob.glob('**', recursive=True))
            raises(Exception, run, pick(rng, ['calc', 'moveout']), conf='conf.json', commands=[],
                   **{k: v for k, v in kw.items() if k != 'format'})
        need(sorted(glob.glob('**', recursive=True)) == before, 'something was processed: %s', sorted(glob.glob('**', recursive=True)))
        need(not calls, 'waveforms were requested')


def _exit(f, args):
    try:
        f(args)
    except SystemExit as ex:
        if ex.code in (0, None):
            return
        raise


@case(4, 40)
def unknown_command_line(rng, note):
    """unknown commands and options on the command line end with an error"""
    from rf.batch import run_cli
    with scratch(), silent():
        a = pick(rng, [['foo', 'a', 'b'], ['calc', '--foo', '1', 'a', 'b'], ['calc', 'stack', 'a', 'b', 'c'], ['moveout', 'calc', 'a', 'b']])
        note['args'] = a
        raises(SystemExit, lambda: _exit(run_cli, a))
        need(os.listdir('.') == [], 'files written')


@case(2, 10)
def create(rng, note):
    """create writes the configuration (and tutorial files); the configuration parses with its comments ignored"""
    from rf.batch import run, ConfigJSONDecoder
    with scratch(), silent():
        tut = bool(rng.randint(2))
        run('create', conf='c.json', tutorial=tut)
        want = ['c.json'] + (['example_data.mseed', 'example_events.xml', 'example_inventory.xml'] if tut else [])
        need(sorted(os.listdir('.')) == want, 'files %s', os.listdir('.'))
        with open('c.json') as f:
            c = json.load(f, cls=ConfigJSONDecoder)
        need(c['rf']['filter'] == {'type': 'bandpass', 'freqmin': 0.01, 'freqmax': 2.0} and c['options'] == {'pp_depth': 50}
             and 'format' not in c, 'configuration %r', c)
