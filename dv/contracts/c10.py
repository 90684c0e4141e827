"""C10: rf.deconvolve.deconvolve; the deconvolution methods enter by their contracts (C11, C12, C13, C27)"""
import z3
from dv.contracts.lib import *

CONTRACTS, contract = registry()
LIB = ['obspy trim(pad, fill_value) cuts or zero-pads, taper tapers, times(k) = k delta (library contracts)',
       'deconv_time, deconv_waterlevel, deconv_iterative and deconv_multitaper return one array of the length of the '
       'response per response (C11, C12, C13, C27)', 'source with at least one sample']
NAMES = dict(time='deconv_time', waterlevel='deconv_waterlevel', iterative='deconv_iterative',
             multitaper='deconv_multitaper')


def algorithms(E, mod, calls):
    """replace the algorithms by their contracts"""
    def make(kind):
        def f(*a, **k):
            rsp = list(a[0])
            out = [SArr.symbolic(E.name('rf%d' % i), r.shape[0]) for i, r in enumerate(rsp)]
            nit = [E.int('nit', 0) for r in rsp]
            calls.append((kind, rsp, core.freeze(a[1]), a[2:], k, [core.freeze(r) for r in rsp], out, nit))
            if kind == 'iterative':
                return DList(out), DList(nit), DList([SArr.symbolic(E.name('rms'), E.int('itm', 1)) for r in rsp])
            return DList(out)
        return f
    for k, n in NAMES.items():
        setattr(mod, n, make(k))


@contract('rf.deconvolve.deconvolve', expect=['sources', 'responses', 'rejected', 'order', 'normalize', 'other-traces'],
          cover=['two-sources', 'no-source', 'no-response', 'four', 'one', 'three', 'not-in'], assumptions=LIB +
          ['traces that are source or response: at most four; further ones: any number'], max_paths=4000)
def selection(E, load):
    """exactly one source and one to three responses, else ValueError; responses in order, each with the deconvolution of
    its own samples; normalized to the source if it is a response"""
    mod, rs = load('rf.deconvolve'), load('rf.rfstream')
    m = (0, 1, 2, 3, 4)[E.choose(5)]
    given = E.choose(2)
    norm = E.choose(2) if m < 3 else 0
    rspc = 'QT' if given and m < 4 else 'QLT' if given else None
    kw = dict(present=('onset',), unknown=())
    trs = [trace(E, rs.RFTrace, 'tr%d' % i, npts=E.int('n%d' % i, 1), **kw) for i in range(m)]
    parts = list(trs)
    other = None
    if given:
        nchan = lambda: SStr([SStr.word('och'), 'N'])
        other = trace(E, rs.RFTrace, 'other', npts=E.int('no', 1), values={'channel': nchan}, **kw)
        parts = [traces(E, rs.RFTrace, 'g0', values={'channel': nchan}, **kw)] + parts + \
            [traces(E, rs.RFTrace, 'g1', values={'channel': nchan}, **kw), other]
        snap = Snap(other)
    s = stream(rs.RFStream, parts)
    calls = []
    algorithms(E, mod, calls)
    opts = {}
    if rspc is not None:
        opts['response_components'] = rspc
    if norm:
        opts['normalize'] = E.int('normalize', 0)
    f = getattr(mod.deconvolve, '__wrapped__', mod.deconvolve)
    before = [core.freeze(t.data) for t in trs]
    try:
        r = f(s, winsrc=(-5, 10, 2), **opts)
    except ValueError:
        r = None
    isrc = [bool(OR(*[t.stats['channel'].endswith(c) for c in 'LZ'])) for t in trs]
    irsp = [rspc is None or bool(OR(*[t.stats['channel'].endswith(c) for c in rspc])) for t in trs]
    rsp = [i for i in range(m) if irsp[i]]
    ok = sum(isrc) == 1 and 1 <= len(rsp) <= 3
    E.prove('rejected', (r is not None) == ok)
    if sum(isrc) == 0:
        E.cover('no-source')
    elif sum(isrc) > 1:
        E.cover('two-sources')
    elif not rsp:
        E.cover('no-response')
    elif len(rsp) == 4:
        E.cover('four')
    if r is None or not ok:
        E.prove('rejected', calls == [])
        return
    k0 = isrc.index(True)
    E.prove('sources', len(calls) == 1)
    kind, arrs, src, a, k, frozen, out, nit = calls[0]
    k = dict(k)
    E.prove('responses', len(arrs) == len(rsp))
    for x, i in zip(frozen, rsp):
        E.prove('responses', core.arr_eq(x, before[i]))
    if norm:
        E.prove('normalize', veq(k.pop('normalize', None), opts['normalize']))
    elif k0 in rsp:
        E.prove('normalize', veq(k.pop('normalize', None), rsp.index(k0)))
        E.cover('one' if len(rsp) == 1 else 'three')
    else:
        E.prove('normalize', 'normalize' not in k)
        E.cover('not-in')
    E.prove('order', isinstance(r, rs.RFStream) and len(parts_of(r.traces)) == len(rsp))
    for t, i, o in zip(parts_of(r.traces), rsp, out):
        E.prove('order', AND(t is trs[i], core.arr_eq(t.data, o)))
    if other is not None:
        E.prove('other-traces', AND(core.arr_eq(other.data, snap.frozen), zb(snap.headers(other.stats)), other.log == []))


@contract('rf.deconvolve.deconvolve', expect=['window', 'pad', 'taper', 'copy', 'onset', 'method', 'delay', 'headers', 'result',
                                              'iterations', 'responses', 'unknown', 'source'],
          cover=['time', 'waterlevel', 'iterative', 'multitaper', 'func', 'freq', 'given', 'P', 'S'], max_paths=4000,
          assumptions=LIB)
def windows(E, load):
    """every method and source window: the source is cut around the onset, zero-padded and tapered, from a copy if it is a
    response; onset of source and responses at the nearest sample; arguments of the algorithm; headers of the result"""
    mod, rs = load('rf.deconvolve'), load('rf.rfstream')
    method = ('time', 'waterlevel', 'freq', 'iterative', 'multitaper', 'func', 'other')[E.choose(7)]
    win = ('P', 'S', None)[E.choose(3)]
    inside = E.choose(2)
    kw = dict(present=('onset',), unknown=('phase', 'slowness', 'event_time'))
    n, n2 = E.int('n', 1), E.int('n2', 1)
    chan = lambda c: lambda: SStr([SStr.word('ch'), c])
    src = trace(E, rs.RFTrace, 'src', npts=n, values={'channel': chan('L')}, **kw)
    tr = trace(E, rs.RFTrace, 'rsp', npts=n2, values={'channel': chan('Q')}, **kw)
    s = stream(rs.RFStream, [src, tr])
    calls = []
    algorithms(E, mod, calls)
    noise = None
    opts = {'some_option': E.real('some_option')}
    if method == 'multitaper':
        noise = stream(rs.RFStream, [trace(E, rs.RFTrace, 'noise', npts=E.int('nn', 1), **kw)])
        opts['noise'] = noise
    funcs = []

    def func(rsp, source, **k):
        out = stream(rs.RFStream, [trace(E, rs.RFTrace, 'custom', npts=E.int('nc', 1), **kw)])
        funcs.append((list(parts_of(rsp.traces)), type(rsp), source, k, [core.freeze(t.data) for t in parts_of(rsp.traces)], out))
        return out
    if method == 'func':
        opts['func'] = func
    w = win
    if win is None:
        w = (E.real('w0'), E.real('w1'), E.real('w2'))
    rspc = None if inside else 'Q'
    start, delta = src.stats['starttime'], src.stats['delta']
    snaps = [Snap(src), Snap(tr)]
    f = getattr(mod.deconvolve, '__wrapped__', mod.deconvolve)
    cut = []

    def trim(tr, a, b, pad, near, fill):
        cut.append((tr, a, b, pad, near, fill, core.freeze(tr.data), tr.stats['starttime']))
    E.trim_hook = trim
    # any sorted times here; the actual ones in the contract below
    rs.RFTrace.times = lambda self: SArr.symbolic('times', self.stats['npts'])
    try:
        r = f(s, method=method, winsrc=w, response_components=rspc, **opts)
    except NotImplementedError:
        E.prove('unknown', method == 'other')
        E.prove('unknown', AND(*[zb(sn.headers(t.stats)) for sn, t in zip(snaps, (src, tr))] + [cut == [], calls == []]))
        return
    E.prove('unknown', method != 'other')
    m = {'freq': 'waterlevel'}.get(method, method)
    E.cover(method)
    E.cover(win or 'given')
    # the onset
    need(len(cut) == 1, 'one cut')
    who, a, b, pad, near, fill, x, x0 = cut[0]
    new = tr.stats['onset']
    need(cands(E), 'search')
    E.prove('onset', OR(*[veq(new, start + i * delta) for i in cands(E)]))
    if inside:
        E.prove('onset', veq(src.stats['onset'], new))
    # the window
    rel, length = new - start, (n - 1) * delta
    ten = lift(-10)
    want = {'time': (-10, 30, 5), 'multitaper': (-10, 30, 5), 'func': (-10, 30, 5),
            'iterative': (-rel, length - rel, 0),
            'waterlevel': (-rel if win == 'P' else -10, length - rel, 5)}[m] if win else w
    E.prove('copy', who is not src if inside else True)
    E.prove('source', AND(core.arr_eq(x, snaps[0].frozen), veq(x0, start)))
    E.prove('window', AND(veq(a, new + want[0]), veq(b, new + want[1])))
    E.prove('pad', AND(pad is True, veq(fill, 0), near is True))
    steps = [e for e in who.log if e[0] != 'trim']
    E.prove('taper', len(steps) == 1 and steps[0][0] == 'taper')
    E.prove('taper', AND(steps[0][1] is None, steps[0][2] == 'hann', veq(steps[0][3], want[2]), steps[0][4] == 'both'))
    resp = [src, tr] if inside else [tr]
    sn = snaps if inside else snaps[1:]
    shift = -lift(want[0])
    if m == 'func':
        need(len(funcs) == 1, 'one call')
        got, cls, source, k, arrs, out = funcs[0]
        E.prove('method', AND(len(got) == len(resp), cls is rs.RFStream, source is who))
        for t, q, y, sp in zip(got, resp, arrs, sn):
            E.prove('responses', AND(t is q, core.arr_eq(y, sp.frozen)))
        k = dict(k)
        E.prove('delay', veq(k.pop('tshift', None), shift))
        E.prove('method', veq(k.pop('some_option', None), opts['some_option']))
        if inside:
            E.prove('method', veq(k.pop('normalize', None), 0))
        E.prove('method', k == {})
        E.prove('result', isinstance(r, rs.RFStream) and len(parts_of(r.traces)) == len(parts_of(out.traces)) and
                all(p is q for p, q in zip(parts_of(r.traces), parts_of(out.traces))))
        return
    need(len(calls) == 1, 'one call')
    kind, arrs, sdata, args, k, frozen, out, nit = calls[0]
    k = dict(k)
    E.prove('method', kind == m)
    E.prove('source', core.arr_eq(sdata, who.data))
    E.prove('responses', len(frozen) == len(resp))
    for y, sp in zip(frozen, sn):
        E.prove('responses', core.arr_eq(y, sp.frozen))
    sr = src.stats['sampling_rate'] if not inside else tr.stats['sampling_rate']
    sr = snaps[0].vs[snaps[0].ks.index('sampling_rate')]
    if m == 'time':
        need(len(args) == 1, 'arguments')
        half = who.stats['npts'] // 2
        E.prove('delay', veq(args[0], stubs.b_round(shift * sr - half)))
    elif m == 'multitaper':
        need(len(args) == 3, 'arguments')
        E.prove('method', len(args[0]) == (1 if inside else sum(1 for t in parts_of(noise.traces) if bool(t.stats['channel'].endswith('Q')))))
        E.prove('delay', AND(veq(args[1], sr), veq(args[2], -shift)))
    else:
        need(len(args) == 1, 'arguments')
        E.prove('delay', AND(veq(args[0], sr), veq(k.pop('tshift', None), shift)))
    E.prove('method', veq(k.pop('some_option', None), opts['some_option']))
    if inside:
        E.prove('method', veq(k.pop('normalize', None), 0))
    E.prove('method', k == {})
    E.prove('result', isinstance(r, rs.RFStream) and len(parts_of(r.traces)) == len(resp))
    for t, q, o, sp, ni in zip(parts_of(r.traces), resp, out, sn, nit):
        E.prove('result', AND(t is q, core.arr_eq(t.data, o)))
        skip = ('onset', 'npts') + (('iterations',) if m == 'iterative' else ())
        E.prove('headers', AND(zb(sp.headers(t.stats, skip=skip)), veq(t.stats['npts'], sp.frozen.shape[0]), t.log == []))
        E.prove('onset', veq(t.stats['onset'], new))
        if m == 'iterative':
            E.prove('iterations', veq(t.stats['iterations'], ni))


@contract('rf.deconvolve.deconvolve', expect=['nearest', 'sample', 'same'], cover=['inside', 'outside'], assumptions=LIB)
def onset(E, load):
    """the new onset is a sample time of the source, and none is nearer to the old onset"""
    mod, rs = load('rf.deconvolve'), load('rf.rfstream')
    inside = E.choose(2)
    n = E.int('n', 1)
    chan = lambda c: lambda: SStr([SStr.word('ch'), c])
    src = trace(E, rs.RFTrace, 'src', npts=n, values={'channel': chan('L')}, unknown=())
    tr = trace(E, rs.RFTrace, 'rsp', npts=E.int('n2', 1), values={'channel': chan('Q')}, unknown=())
    start, delta, old = src.stats['starttime'], src.stats['delta'], src.stats['onset']
    f = getattr(mod.deconvolve, '__wrapped__', mod.deconvolve)
    r = f(stream(rs.RFStream, [src, tr]), method='func', func=lambda a, b, **k: a,
          response_components=None if inside else 'Q')
    new = parts_of(r.traces)[0].stats['onset']
    E.prove('same', AND(*[veq(t.stats['onset'], new) for t in parts_of(r.traces)]))
    j = E.int('j', 0)
    E.assume(j.t < n.t)
    need(cands(E), 'search')
    i = cands(E)
    E.prove('sample', OR(*[AND(x >= 0, x < n, veq(new, start + x * delta)) for x in i]))
    # lemma: samples farther away in number are farther away in time
    for x in i:
        E.assume(z3.Implies(j.t >= x.t, ((j - x) * delta).t >= 0))
        E.assume(z3.Implies(j.t <= x.t, ((j - x) * delta).t <= 0))
    d = lambda t: abs(t - old)
    E.prove('nearest', d(new) <= d(start + j * delta))
    E.cover('inside' if inside else 'outside')


def cands(E):
    """sample numbers found by the search: a known integer and its neighbour"""
    out = []
    for u in E.universal:
        if isinstance(u[1], SNum) and not any(u[1] is o for o in out):
            out.append(u[1])
    return [x for o in out for x in (o - 1, o)]
