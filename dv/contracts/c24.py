"""C24: rf.util._add_processing_info and the functions it wraps"""
import inspect
import z3
from dv.contracts.lib import *

CONTRACTS, contract = registry()
TRUST = ['the decorator package hands the arguments, bound to the signature with defaults applied, to the caller; '
         'inspect.getcallargs and obspy Trace._internal_add_processing_info (append to stats.processing) as '
         'documented']


def shown(v):
    if isinstance(v, (str, SStr)):
        return SStr.make(["'", v, "'"])
    return stubs.b_repr(v)


def entry(load, name, args):
    parts = ['rf ', load('rf').__version__, ': %s(' % name]
    for i, k in enumerate(sorted(args, key=lambda k: k + '=')):
        parts += ['::'] * bool(i) + [k + '=', shown(args[k])]
    return SStr.make(parts + [')'])


def history(E, tr, base, kind):
    """processing records of a trace: none, or any with the last one `old`"""
    if kind == 0:
        return None
    h = DList([Gap(base + '.history', lambda: SStr.word(base + '.entry')), SStr.word(base + '.old')])
    tr.stats._put('processing', h)
    return list(h.parts)


def appended(tr, before):
    """entries added to the records, None if earlier ones changed"""
    if 'processing' not in tr.stats:
        return [] if before is None else None
    now = parts_of(tr.stats['processing'])
    before = before or []
    if len(now) < len(before) or any(a is not b for a, b in zip(now, before)):
        return None
    return now[len(before):]


def functions(result, calls, mode):
    """wrapped functions with all shapes of signatures in use: method with keyword arguments, method without, function
    of a stream with a keyword argument boxes"""
    def run(*a):
        calls.append(a)
        if mode == 'fails':
            raise ValueError('step failed')
        return result[0]

    def step(self, first, second=7, third=None, **kwargs):
        kwargs_ = dict(kwargs)
        kwargs['later'] = 'changed'
        return run(self, (first, second, third), kwargs_)

    def plain(self):
        return run(self, (), {})

    def onstream(stream, boxes, crs=None):
        return run(stream, (boxes, crs), {})
    return step, plain, onstream


@contract('rf.util._add_processing_info', expect=['called', 'returned', 'entry', 'others', 'failed', 'samples'],
          cover=['same', 'new', 'fails', 'nothing'], assumptions=TRUST)
def record(E, load):
    """the wrapped function is called once with the given arguments and its result returned; afterwards every trace of
    the result has one entry more, naming version, function and the effective arguments sorted by name; traces that
    are not in the result, and all traces if the function fails, are left alone; samples and headers never change"""
    rs, util = load('rf.rfstream'), load('rf.util')
    mode = ('same', 'new', 'fails', 'nothing')[E.choose(4)]
    kw = dict(present=('onset',), unknown=('type', 'phase'))
    has = E.choose(2)

    def gap_trace():
        t = trace(E, rs.RFTrace, 'other', **kw)
        if E.choose(2):
            history(E, t, 'other', 1)
        return t
    tr, out = trace(E, rs.RFTrace, 'tr', **kw), trace(E, rs.RFTrace, 'out', **kw)
    old = history(E, tr, 'tr', has)
    old2 = history(E, out, 'out', has)
    s = stream(rs.RFStream, [Gap('before', gap_trace), tr, Gap('behind', gap_trace)])
    res = s if mode == 'same' else None if mode == 'nothing' else stream(rs.RFStream, [Gap('more', gap_trace), out,
                                                                                     Gap('most', gap_trace)])
    snap, snap2, parts = Snap(tr), Snap(out), list(s.traces.parts)
    calls = []
    which = E.choose(3)
    f = functions([res], calls, mode)[which]
    a, k = (), {}
    if which == 0:
        vals = [E.real('first'), SStr.word('second'), (E.real('t1'), E.real('t2'))]
        n = 1 + E.choose(3)
        pos = 1 + E.choose(2)
        a, names = tuple(vals[:min(n, pos)]), ('first', 'second', 'third')
        k = dict(zip(names[len(a):n], vals[len(a):n]))
        if E.choose(2):
            k.update(zeta=E.real('zeta'), alpha=SStr.word('alpha'), gamma=None)
        eff = dict({'second': 7, 'third': None}, **dict(zip(names, vals[:n])))
        want = tuple(eff[x] for x in names)
        extra = {x: v for x, v in k.items() if x not in names}
        eff.update(extra)
        name = 'step'
    elif which == 1:
        want, extra, eff, name = (), {}, {}, 'plain'
    else:
        latlon, azi, length = (E.real('lat'), E.real('lon')), E.real('azimuth'), E.real('length')
        boxes = DList([DDict([('profile', DDict([('latlon', latlon), ('azimuth', azi), ('length', length)]))]),
                       Gap('boxes', lambda: None)])
        crs = (None, SStr.word('crs'))[E.choose(2)]
        a, k = ((boxes,), {}) if crs is None else ((boxes,), {'crs': crs})
        if E.choose(2):
            a, k = (), dict(k, boxes=boxes)
        want, extra, name = (boxes, crs), {}, 'onstream'
        eff = {'crs': crs, 'latlon': latlon, 'azimuth': azi, 'length': length}
    wrapped = util._add_processing_info(f)
    try:
        r = wrapped(s, *a, **dict(k))
        need(mode != 'fails', 'the exception of the step is swallowed')
        E.prove('returned', r is res)
    except ValueError:
        E.prove('failed', mode == 'fails')
    E.prove('called', AND(len(calls) == 1, calls[0][0] is s, veq(calls[0][1], want), sorted(calls[0][2]) == sorted(extra),
                          *[veq(calls[0][2][x], extra[x]) for x in extra if x in calls[0][2]]))
    target, before, other, obefore = (tr, old, out, old2) if mode == 'same' else (out, old2, tr, old)
    E.prove('others', appended(other, obefore) == [])
    new = appended(target, before)
    if mode in ('fails', 'nothing'):
        E.prove('others', new == [])
    else:
        E.prove('entry', new is not None and len(new) == 1 and same_text(new[0], entry(load, name, eff)))
        E.prove('entry', all(x is y for x, y in zip(res.traces.parts, res.traces.parts)) and len(res.traces.parts) == 3)
    E.prove('kept', len(s.traces.parts) == 3 and all(x is y for x, y in zip(s.traces.parts, parts)))
    for t, sn in ((tr, snap), (out, snap2)):
        E.prove('samples', sn.samples(t.data))
        E.prove('frame', sn.headers(t.stats, ('processing',)))
    E.cover(mode)


WRAPPED = [('rf.rfstream', 'RFStream.rf'), ('rf.rfstream', 'RFStream.moveout'), ('rf.rfstream', 'RFStream.stack'),
           ('rf.deconvolve', 'deconvolve'), ('rf.harmonics', 'harmonics'), ('rf.profile', 'profile')]


@contract('rf.rfstream.RFStream.rf', 'rf.rfstream.RFStream.moveout', 'rf.rfstream.RFStream.stack',
          'rf.deconvolve.deconvolve', 'rf.harmonics.harmonics', 'rf.profile.profile', expect=['recorded', 'once'],
          cover=['end'], assumptions=TRUST)
def applied(E, load):
    """each recorded step is the wrapped function (wrapped once) under its own name"""
    load('rf.rfstream')
    mod, name = WRAPPED[E.choose(len(WRAPPED))]
    f = load(mod)
    for k in name.split('.'):
        f = getattr(f, k)
    inner = getattr(f, '__wrapped__', None)
    need(inner is not None, '%s is not decorated' % name)
    caller = getattr(f, '__caller__', None)
    E.prove('recorded', caller is load('rf.util')._add_processing_info.__caller__)
    E.prove('once', AND(not hasattr(inner, '__wrapped__'), inner.__name__ == name.split('.')[-1]))
    E.cover('end')


@contract('rf.rfstream.RFStream.deconvolve', 'rf.rfstream.RFStream.harmonics', 'rf.rfstream.RFStream.profile',
          expect=['passed', 'result'], cover=['end'])
def delegates(E, load):
    """the stream methods deconvolve, harmonics and profile call the recorded function once with all arguments and
    record nothing themselves; deconvolve puts the traces of the result into the stream"""
    rs = load('rf.rfstream')
    load('rf.profile')
    name = ('deconvolve', 'harmonics', 'profile')[E.choose(3)]
    tr, new = trace(E, rs.RFTrace, 'tr'), trace(E, rs.RFTrace, 'new')
    old, old2 = history(E, tr, 'tr', 1), history(E, new, 'new', 1)
    s, res = stream(rs.RFStream, [tr]), stream(rs.RFStream, [new])
    calls = []

    def target(*a, **k):
        calls.append((a, k))
        return res
    setattr(load('rf.profile') if name == 'profile' else rs, name, target)
    a, k = [((), {}), ((E.real('x'), SStr.word('y')), {}), ((SStr.word('y'),), {'opt': E.real('opt'), 'two': None}),
            ((), {'method': SStr.word('m')})][E.choose(4)]
    r = getattr(s, name)(*a, **dict(k))
    E.prove('passed', AND(len(calls) == 1, len(calls[0][0]) == 1 + len(a), calls[0][0][0] is s,
                          all(x is y for x, y in zip(calls[0][0][1:], a)), sorted(calls[0][1]) == sorted(k),
                          *[calls[0][1].get(x) is k[x] for x in k]))
    if name == 'deconvolve':
        E.prove('result', r is s and len(s.traces.parts) == 1 and s.traces.parts[0] is new)
    else:
        E.prove('result', r is res and s.traces.parts[0] is tr)
    E.prove('recorded-once', AND(appended(tr, old) == [], appended(new, old2) == []))
    E.cover('end')
