"""C24: every processing step is recorded once, with its arguments, on each trace."""
import numpy as np
from rt.base import *


def text(v):
    return "'%s'" % v if isinstance(v, str) else repr(v)


def entry(func, args):
    from rf import __version__
    return 'rf %s: %s(%s)' % (__version__, func, '::'.join(sorted('%s=%s' % (k, text(v)) for k, v in args.items())))


def entries(tr, name=None):
    from rf import __version__
    p = tr.stats.get('processing', [])
    return [e for e in p if e.startswith('rf ') and (name is None or ': %s(' % name in e)]


def data(rng, comps='ZNE', n=100, sets=1):
    from rf import RFStream
    tr = []
    for k in range(sets):
        g = group(rng, comps, n=n, sr=4., onset_at=10., sta='S%d' % k)
        for t in g:
            t.data = t.data + 8 * np.exp(-((np.arange(n) / 4. - 10) / 1.) ** 2)
            if rng.rand() < .3:
                t.stats.processing = ['before']
        tr += g
    return RFStream(tr)


def subset(rng, d):
    return {k: v for k, v in d.items() if rng.rand() < .6}


STEPS = ['moveout', 'moveout', 'stack', 'deconvolve', 'rf', 'rf', 'harmonics', 'profile']


def step(rng, kind):
    """-> stream, call, function name, effective arguments, comparable result without recording"""
    if kind == 'moveout':
        s = data(rng, 'LQT', sets=1 + rng.randint(2))
        kw = subset(rng, {'phase': pick(rng, ['Ps', 'Ppps']), 'ref': pick(rng, [6.4, 5., 7]), 'model': 'iasp91'})
        eff = dict({'phase': None, 'ref': 6.4, 'model': 'iasp91'}, **kw)
        if kw.get('phase') and rng.rand() < .3:
            kw2 = dict(kw)
            ph = kw2.pop('phase')
            return s, lambda: s.moveout(ph, **kw2), 'moveout', eff
        return s, lambda: s.moveout(**kw), 'moveout', eff
    if kind == 'stack':
        s = data(rng, 'LQ', sets=1 + rng.randint(2))
        for t in s:
            t.stats.station = 'A'
        return s, lambda: s.stack(), 'stack', {}
    if kind == 'deconvolve':
        from rf.deconvolve import deconvolve
        s = data(rng, 'LQT')
        kw = subset(rng, {'method': 'waterlevel', 'source_components': 'L', 'response_components': pick(rng, ['QT', 'LQ', None]),
                          'winsrc': (-4, 6, 1)})
        kw.setdefault('method', 'waterlevel')
        eff = dict({'func': None, 'source_components': 'LZ', 'response_components': None, 'winsrc': 'P'}, **kw)
        extra = subset(rng, {'waterlevel': .1, 'gauss': 1., 'normalize': 0})
        eff.update(extra)
        how = rng.randint(3)
        if how == 0:
            return s, lambda: deconvolve(s, **dict(kw, **extra)), 'deconvolve', eff
        if how == 1:
            return s, lambda: s.deconvolve(**dict(kw, **extra)), 'deconvolve', eff
        kw2 = dict(kw)
        m = kw2.pop('method')
        return s, lambda: s.deconvolve(m, **dict(kw2, **extra)), 'deconvolve', eff
    if kind == 'rf':
        s = data(rng, 'ZNE', sets=1 + rng.randint(2))
        kw = subset(rng, {'method': 'P', 'filter': {'type': 'bandpass', 'freqmin': .1, 'freqmax': 1.}, 'trim': (-8, 12),
                          'rotate': pick(rng, ['ZNE->LQT', 'NE->RT']), 'downsample': 2.})
        kw['deconvolve'] = pick(rng, ['waterlevel', 'waterlevel', None, 'time'])
        extra = subset(rng, {'winsrc': (-4, 6, 1)} if kw['deconvolve'] else {})
        if kw['deconvolve'] == 'waterlevel':
            extra.update(subset(rng, {'waterlevel': .1, 'gauss': 1.}))
        eff = dict({'method': None, 'filter': None, 'trim': None, 'downsample': None, 'rotate': 'ZNE->LQT',
                    'deconvolve': 'time', 'source_components': None}, **kw)
        eff.update(extra)
        return s, lambda: s.rf(**dict(kw, **extra)), 'rf', eff
    if kind == 'harmonics':
        from rt.c21 import events
        from rf import RFStream
        from rf.harmonics import harmonics
        c = pick(rng, ['R', 'RT'])
        s = RFStream(events(rng, c, 6, 8))
        for t in s:
            t.stats.processing = ['before']
        kw = subset(rng, {'components': c, 'azim': 30, 'method': 'freq'})
        if c != 'R':
            kw['components'] = c
        eff = dict({'components': 'R', 'azim': 0, 'method': 'time'}, **kw)
        if len(kw.get('components', 'R')) == 2 and rng.rand() < .4:
            kw['scalars'] = eff['scalars'] = (2, .5)
        f = pick(rng, [lambda: s.harmonics(**kw), lambda: harmonics(s, **kw)])
        return s, f, 'harmonics', eff
    if kind == 'profile':
        from rf.profile import get_profile_boxes, profile
        boxes = get_profile_boxes((0., 0.), 90., (0, 20, 40), width=100)
        s = data(rng, 'LQ', n=20, sets=2)
        for t in s:
            t.stats.onset = t.stats.starttime + 1
            t.stats.pp_latitude, t.stats.pp_longitude = 0.01, float(rng.uniform(0.02, .33))
        p = boxes[0]['profile']
        eff = {'crs': None, 'latlon': p['latlon'], 'azimuth': p['azimuth'], 'length': p['length']}
        f = pick(rng, [lambda: s.profile(boxes), lambda: profile(s, boxes), lambda: profile(iter(list(s)), boxes)])
        return s, f, 'profile', eff


@case(40, 800)
def recorded(rng, note):
    """one entry per step on each trace of the result; inputs which are not results are left alone"""
    kind = pick(rng, STEPS)
    s, f, name, eff = step(rng, kind)
    note.update(step=kind, args=repr(eff), n=len(s))
    inp = list(s)
    before = {id(t): snap(t) for t in inp}
    nb = {id(t): len(entries(t, name)) for t in inp}
    with quiet():
        r = f()
    need(len(r) > 0, 'empty result')
    want = entry(name, eff)
    for t in r:
        e = entries(t, name)
        base = nb.get(id(t), 0)
        need(len(e) == base + 1, '%d entries of %s on %s', len(e) - base, name, t.id)
        need(t.stats.processing[-1] == want, 'entry %r instead of %r', t.stats.processing[-1], want)
    ids = {id(t) for t in r}
    if kind in ('stack', 'harmonics', 'profile'):
        need(not ids & set(before), 'result shares traces with the input')
        for t in inp:
            same_snap(before[id(t)], snap(t), 'input')
    elif kind in ('moveout', 'rf'):
        need(r is s, 'not in place')
    else:
        for t in inp:
            if id(t) not in ids:
                need(len(entries(t, name)) == nb[id(t)], 'recorded on a trace which is not in the result')
    # earlier entries stay in front
    for t in r:
        if id(t) in before:
            p0 = before[id(t)][1].get('processing', [])
            need(list(t.stats.processing)[:len(p0)] == list(p0), 'earlier entries changed')


@case(8, 100)
def sequence(rng, note):
    """a chain of steps is recorded in its order, each once"""
    s = data(rng, 'ZNE', sets=2)
    kw = {'deconvolve': 'waterlevel', 'rotate': 'ZNE->LQT'}
    s.rf(**kw)
    n = int(rng.randint(1, 3))
    for _ in range(n):
        s.moveout()
    st = s.stack()
    note['moveouts'] = n
    for t in list(s):
        e = [x.split(': ')[1].split('(')[0] for x in entries(t)]
        need(e == ['deconvolve', 'rf'] + ['moveout'] * n, 'recorded steps %s', e)
    for t in st:
        e = [x.split(': ')[1].split('(')[0] for x in entries(t)]
        need(e == ['deconvolve', 'rf'] + ['moveout'] * n + ['stack'], 'recorded steps of the stack %s', e)


@case(16, 200)
def failing(rng, note):
    """a failing step records nothing"""
    kind = pick(rng, ['rf_method', 'moveout_onset', 'moveout_phase', 'deconvolve_src', 'deconvolve_method', 'harmonics', 'stack', 'rf_deconv'])
    note['kind'] = kind
    s = data(rng, 'LQT' if kind not in ('rf_method', 'rf_deconv') else 'ZNE')
    inp = list(s)
    names = {'rf_method': 'rf', 'rf_deconv': 'rf', 'moveout_onset': 'moveout', 'moveout_phase': 'moveout', 'deconvolve_src': 'deconvolve',
             'deconvolve_method': 'deconvolve', 'harmonics': 'harmonics', 'stack': 'stack'}
    with quiet():
        if kind == 'rf_method':
            raises(Exception, s.rf, method='X')
        elif kind == 'rf_deconv':
            raises(Exception, s.rf, deconvolve='xxx')
        elif kind == 'moveout_onset':
            s[int(rng.randint(3))].stats.onset -= 1000
            raises(Exception, s.moveout)
        elif kind == 'moveout_phase':
            raises(Exception, s.moveout, phase='Psp')
        elif kind == 'deconvolve_src':
            raises(Exception, s.deconvolve, 'time', source_components='X')
        elif kind == 'deconvolve_method':
            raises(Exception, s.deconvolve, 'xxx')
        elif kind == 'harmonics':
            raises(Exception, s.harmonics, components='R')
        else:
            s[1].stats.channel = s[0].stats.channel
            s[1].data = s[1].data[:-5]
            raises(Exception, s.stack)
    for t in inp:
        need(not entries(t, names[kind]), 'failed step is recorded: %s', entries(t))
        need(len(entries(t)) == 0, 'failed step is recorded: %s', entries(t))
