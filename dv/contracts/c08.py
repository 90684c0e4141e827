"""C08/C09: rf.rfstream.RFStream.rf; the steps filter, trim2, decimate, rotate and deconvolve and the grouping
IterMultipleComponents enter by their contracts"""
import z3
from dv.contracts.lib import *

CONTRACTS, contract = registry()
STEPS = ['RFStream.rf: obspy filter, decimate and rotate change samples (arbitrarily here), headers as documented; '
         'trim2 by C07, IterMultipleComponents by C05, deconvolve by C10']


def world(E, load, method, given, grouped=True):
    """stream [any traces, tr, any traces]; tr belongs to group G among any other groups, or to none"""
    rs = load('rf.rfstream')
    R = rs.RFStream
    kw = dict(present=('onset',), unknown=('phase', 'type', 'event_time', 'slowness'))
    g1, g2 = traces(E, rs.RFTrace, 'before', **kw), traces(E, rs.RFTrace, 'behind', **kw)
    tr, mate = trace(E, rs.RFTrace, 'tr', **kw), trace(E, rs.RFTrace, 'mate', **kw)
    E.assume(z3.And(tr.stats['sampling_rate'].t > 0))
    s = stream(R, [g1, tr, g2])
    G = stream(R, [tr, mate, trace(E, rs.RFTrace, 'mate2', **kw)][:2 + (E.choose(2) if grouped == 3 else 0)])
    events, groupings = [], []

    def others(base):
        return Gap(base, lambda: stream(R, [trace(E, rs.RFTrace, base, **kw), trace(E, rs.RFTrace, base, **kw)]))

    class Groups(object):
        def __init__(self, stream, key=None, number_components=None):
            groupings.append((stream, key, number_components))
            self.parts = [others('groups1'), G, others('groups2')] if grouped else [others('groups')]

        def __parts__(self):
            return self.parts

        def __len__(self):
            raise core.Unsupported('number of groups')
    rs.IterMultipleComponents = Groups

    def record(name, *info):
        events.append((name,) + info)

    def new(t, keep=True):
        n = t.stats['npts'] if keep else E.int('n_new', 1)
        object.__setattr__(t, 'data', SArr.symbolic(E.opaque_name('samples'), n))
        t.stats._put('npts', n)

    def rotate(self, method, *a, **k):
        if self is G:
            record('rotate', method, a, k, core.freeze(tr.data))
            new(tr)
        elif self is s:
            record('rotate', 'whole stream', a, k, None)
        return self

    def deconvolve(self, *a, **k):
        if self is G:
            record('deconvolve', a, k, core.freeze(tr.data), tr.stats['onset'])
            new(tr)
            tr.stats._put('onset', SUTC(E.real('new_onset')))
            object.__setattr__(tr, 'after', core.freeze(tr.data))
            object.__setattr__(tr, 'onset_after', tr.stats['onset'])
        elif self is s:
            record('deconvolve', ('whole stream',), k, None, None)
        return self

    def filter(self, *a, **k):
        ts = parts_of(self.traces) if isinstance(self, R) else [self]
        for t in ts:
            if t is tr:
                record('filter', a, k)
            if not isinstance(t, Gap):
                new(t)
        return self

    def trim2(self, *a, **k):
        record('trim', self, a, k)
        for t in parts_of(self.traces):
            if not isinstance(t, Gap):
                new(t, False)
                t.stats._put('starttime', SUTC(E.real('start_trimmed')))
        return self

    def decimate(self, factor, no_filter=False, strict_length=False):
        if self is tr:
            record('decimate', factor, no_filter, self.stats['sampling_rate'])
        sr = self.stats['sampling_rate']
        new(self, False)
        self.stats['sampling_rate'] = div(sr, factor)
        return self
    R.rotate, R.deconvolve, R.filter, R.trim2 = rotate, deconvolve, filter, trim2
    rs.RFTrace.decimate = decimate
    rs.RFTrace.filter = filter
    R.decimate = lambda self, *a, **k: [decimate(t, *a, **k) for t in parts_of(self.traces) if not isinstance(t, Gap)]
    own = [None]
    R.method = property(lambda self: own[0] if self is s else None, lambda self, v: setmethod(self, v))

    def setmethod(self, v):
        need(self is s, 'method of another stream')
        record('method', v)
        own[0] = v
    own[0] = {'phase': method, 'both': 'PS'.replace(method, ''), 'given': None}[given]
    undecorated = getattr(R.rf, '__wrapped__', R.rf)
    return rs, s, tr, g1, g2, G, events, groupings, undecorated


def negated(tr, q):
    return SArr(tr.shape, lambda i: core.ite(zb(q), -tr.at(i), tr.at(i)) if not isinstance(q, bool) else
                -tr.at(i) if q else tr.at(i), 'f')


def mirrored(a):
    n = a.shape[0]
    return SArr(a.shape, lambda i: a.at(n - 1 - lift(i)), 'f')


METHODS = [('P', 'phase'), ('S', 'phase'), ('P', 'both'), ('S', 'both'), ('P', 'given'), ('S', 'given')]


def call(rf, s, method, given, **kw):
    if given != 'phase':
        kw['method'] = method
    return rf(s, **kw)


@contract('rf.rfstream.RFStream.rf', expect=['order', 'filter', 'trim', 'downsample', 'rotate', 'deconvolve',
                                             'mirror', 'untouched', 'onset', 'window', 'type', 'method', 'returned', 'groups'],
          cover=['end', 'all', 'none'], assumptions=STEPS, max_paths=20000)
def steps(E, load):
    """every combination of requested steps: they are applied in order, once (rotate and deconvolve once per group),
    with the given options; Q is negated once between rotation and deconvolution; S results are mirrored with their
    onset; the stream keeps its traces"""
    method = 'PS'[E.choose(2)]
    grouped = E.choose(2)
    rs, s, tr, g1, g2, G, events, groupings, rf = world(E, load, method, 'phase', grouped)
    on = dict((k, E.choose(2)) for k in ('filter', 'trim', 'downsample', 'rotate', 'deconvolve'))
    lo, hi, fr = E.real('trim_from'), E.real('trim_to'), E.real('downsample')
    E.assume(fr.t > 0)
    if E.entails(z3.BoolVal(True)) and on['downsample']:
        pass
    kw = {}
    if on['filter']:
        kw['filter'] = DDict([('type', 'bandpass'), ('freqmin', E.real('fmin'))])
    if on['trim']:
        kw['trim'] = (lo, hi)
    if on['downsample']:
        kw['downsample'] = fr
    kw['rotate'] = text(E, 'rotation') if on['rotate'] else None
    kw['deconvolve'] = text(E, 'method') if on['deconvolve'] else None
    start = core.freeze(tr.data)
    end0 = (tr.stats['starttime'], tr.stats['endtime'], tr.stats['onset'])
    q = tr.stats['channel'].endswith('Q')
    sr = tr.stats['sampling_rate']
    snap = Snap(tr)
    r = call(rf, s, method, 'phase', **kw)
    E.prove('returned', r is s)
    E.prove('kept', len(s.traces.parts) == 3 and s.traces.parts[1] is tr)
    ev = [e for e in events if e[0] != 'method']
    want = ['filter'] * on['filter'] + ['trim'] * on['trim']
    if on['downsample'] and fr <= sr:
        want.append('decimate')
    want += (['rotate'] * on['rotate'] + ['deconvolve'] * on['deconvolve']) if grouped else []
    E.prove('order', [e[0] for e in ev] == want)
    if [e[0] for e in ev] != want:
        return
    d = dict((e[0], e[1:]) for e in ev)
    if on['filter']:
        a, k = d['filter']
        k = dict(zip(('type',), a), **k)
        f = kw['filter']
        E.prove('filter', AND(len(a) < 2, sorted(k) == ['freqmin', 'type'], veq(k.get('type'), 'bandpass'),
                              veq(k.get('freqmin'), f['freqmin'])))
    if on['trim']:
        who, a, k = d['trim']
        k = dict(zip(('starttime', 'endtime', 'reftime'), a), **k)
        E.prove('trim', AND(who is s, veq(k.pop('starttime'), lo), veq(k.pop('endtime'), hi),
                            veq(k.pop('reftime'), 'onset'), k == {}))
    if 'decimate' in d:
        n, nof, before = d['decimate']
        n = lift(n)
        E.prove('downsample', AND(n >= 1, n * fr <= before, (n + 1) * fr > before, veq(nof, False)))
    for w, key, num in groupings:
        E.prove('groups', AND(w is s, key == 'onset', not isinstance(num, int) and sorted(num) == [2, 3]))
    E.prove('groups', len(groupings) == on['rotate'] + on['deconvolve'])
    if 'rotate' in d:
        arg, a, k, x = d['rotate']
        E.prove('rotate', AND(veq(arg, kw['rotate']), a == (), k == {}))
    if 'deconvolve' in d:
        a, k, x, onset = d['deconvolve']
        k = dict(k)
        E.prove('deconvolve', AND(a == (), veq(k.pop('method', None), kw['deconvolve']),
                                  k.pop('source_components', None) == {'P': 'LZ', 'S': 'QR'}[method],
                                  k.pop('winsrc', None) == method, k == {}))
        E.prove('deconvolve-onset', veq(onset, end0[2]))
        base = [e for e in events if e[0] == 'rotate']
        ref = getattr(tr, 'before_decon', None)
    # samples: the last step that renews them, sign, deconvolution, mirror
    names = [e[0] for e in ev]
    if names and names[-1] == 'deconvolve':
        last, onset = tr.after, tr.onset_after
        flip = False
    else:
        last, onset, flip = None, end0[2], q
    if not names:
        last = start
    if last is not None:
        ref = negated(last, flip)
        E.prove('mirror' if method == 'S' else 'untouched', core.arr_eq(tr.data, mirrored(ref) if method == 'S' else ref))
    now = tr.stats
    if method == 'S':
        E.prove('onset', veq(now['onset'] - now['starttime'], now['endtime'] - onset))
    else:
        E.prove('onset', veq(now['onset'], onset))
    if not on['trim']:
        E.prove('window', veq(now['starttime'], end0[0]))
        if not on['downsample']:
            E.prove('window', veq(now['endtime'], end0[1]))
    E.prove('type', veq(now['type'], 'rf'))
    E.prove('method', [e for e in events if e[0] == 'method'] == [] or events[-1] == ('method', method))
    skip = ('onset', 'type', 'phase') + ('npts', 'starttime') * on['trim'] + \
        ('npts', 'sampling_rate', 'delta') * on['downsample']
    E.prove('frame', snap.headers(now, skip))
    E.cover('end')
    if all(on.values()) and grouped:
        E.cover('all')
    if not any(on.values()):
        E.cover('none')


@contract('rf.rfstream.RFStream.rf', expect=['sign', 'sign-last'], cover=['end', 'alone'], assumptions=STEPS)
def sign(E, load):
    """the samples handed to the deconvolution are those of the rotation (or the original ones), negated for Q once;
    without deconvolution the result is those samples"""
    method = 'PS'[E.choose(2)]
    rs, s, tr, g1, g2, G, events, groupings, rf = world(E, load, method, 'phase', 3)
    rotate, deconvolve = E.choose(2), E.choose(2)
    q = tr.stats['channel'].endswith('Q')
    seen = [core.freeze(tr.data)]
    R = rs.RFStream
    old = R.rotate

    def rotate_(self, *a, **k):
        r = old(self, *a, **k)
        if self is G:
            seen[0] = core.freeze(tr.data)
        return r
    R.rotate = rotate_
    call(rf, s, method, 'phase', rotate='ZNE->LQT' if rotate else None, deconvolve='time' if deconvolve else None)
    d = [e for e in events if e[0] == 'deconvolve']
    rot = [e for e in events if e[0] == 'rotate']
    if rotate:
        need(len(rot) == 1, 'not one rotation')
    if deconvolve:
        need(len(d) == 1, 'not one deconvolution')
        E.prove('sign', core.arr_eq(d[0][3], negated(seen[0], q)))
        E.cover('end')
    else:
        x = negated(seen[0], q)
        E.prove('sign-last', core.arr_eq(tr.data, mirrored(x) if method == 'S' else x))
        E.cover('alone')


@contract('rf.rfstream.RFStream.rf', expect=['options', 'method', 'set'], cover=['end'], assumptions=STEPS)
def options(E, load):
    """method given (whatever the headers say) or from the headers; source components and source window by method
    unless given; all further options reach the deconvolution unchanged, for every group"""
    method, given = METHODS[E.choose(6)]
    rs, s, tr, g1, g2, G, events, groupings, rf = world(E, load, method, given)
    kw = {}
    if E.choose(2):
        kw['source_components'] = SStr.word('sourcecomp')
    if E.choose(2):
        kw['winsrc'] = (E.real('w1'), E.real('w2'), E.real('w3'))
    if E.choose(2):
        kw['spiking'] = E.real('spiking')
        kw['normalize'] = E.int('norm')
    call(rf, s, method, given, **dict(kw))
    d = [e for e in events if e[0] == 'deconvolve']
    need(len(d) == 1 and d[0][1] == (), 'not one deconvolution of the group')
    k = dict(d[0][2])
    want = dict({'method': 'time', 'source_components': {'P': 'LZ', 'S': 'QR'}[method], 'winsrc': method}, **kw)
    E.prove('options', AND(sorted(k) == sorted(want), *[veq(k[x], want[x]) for x in want if x in k]))
    set_ = [e for e in events if e[0] == 'method']
    E.prove('set', set_ == [] if given == 'phase' else set_ == [('method', method)])
    E.prove('method', s.method == method)
    E.cover('end')


@contract('rf.rfstream.RFStream.rf', expect=['rejected', 'unchanged', 'samples'], cover=['end'], assumptions=STEPS)
def rejected(E, load):
    """no or another method: ValueError before anything is changed"""
    given = E.choose(3)
    rs, s, tr, g1, g2, G, events, groupings, rf = world(E, load, 'P', 'given')
    snap = Snap(tr)
    kw = {}
    if given == 1:
        kw['method'] = ('X', 'p', 'PS', 'SP', '')[E.choose(5)]
    if given == 2:
        kw['method'] = m = SStr.word('anymethod')
        if m == 'P' or m == 'S':
            raise core.PathEnd()
    try:
        rf(s, filter=DDict([('type', 'lowpass')]), trim=(E.real('a'), E.real('b')), **kw)
        ok = False
    except ValueError:
        ok = True
    E.prove('rejected', ok)
    E.prove('unchanged', events == [] and groupings == [] and len(s.traces.parts) == 3 and s.traces.parts[1] is tr)
    E.prove('unchanged', snap.headers(tr.stats))
    E.prove('samples', snap.samples(tr.data))
    E.cover('end')


@contract('rf.rfstream.RFStream.method', 'rf.rfstream.RFStream.type', expect=['type', 'phase', 'derived', 'mixed'],
          cover=['one', 'mixed', 'none'])
def properties(E, load):
    """setting type or method reaches every trace; the method read from the headers is the last letter of the common
    phase in upper case, None if there is none or several"""
    rs = load('rf.rfstream')
    kw = dict(present=('onset',), unknown=('type',))
    case = E.choose(3)
    a = trace(E, rs.RFTrace, 'a', **kw)
    b = trace(E, rs.RFTrace, 'b', **kw)
    g = traces(E, rs.RFTrace, 'gap', present=('onset',), unknown=('type', 'phase'))
    if E.choose(2):
        s = stream(rs.RFStream, [g, a, g])
        v = SStr.word('newvalue')
        if E.choose(2):
            s.type = v
            E.prove('type', AND(veq(a.stats['type'], v), 'phase' not in a.stats))
        else:
            s.method = v
            E.prove('phase', AND(veq(a.stats['phase'], v)))
        E.prove('kept', s.traces.parts[0] is g and s.traces.parts[1] is a)
        raise core.PathEnd()
    s = stream(rs.RFStream, [a, b])
    if case == 0:
        p = ending(E, 'phase')
        a.stats._put('phase', p)
        if E.choose(2):
            b.stats._put('phase', p)
        E.prove('derived', veq(s.method, p[-1].upper()))
        E.cover('one')
    elif case == 1:
        p, q = ending(E, 'phase1'), ending(E, 'phase2')
        E.assume(z3.Not(zb(p == q)))
        a.stats._put('phase', p)
        b.stats._put('phase', q)
        E.prove('mixed', s.method is None)
        E.cover('mixed')
    else:
        E.prove('mixed', s.method is None)
        E.cover('none')
