"""C04: event selection (rf.rfstream.rfstats: interval and stream)"""
from dv.contracts.lib import *
from dv.contracts import c03

CONTRACTS, contract = registry()
LIB = c03.LIB


@contract('rf.rfstream.rfstats', expect=['inside', 'outside', 'rejected', 'headers'],
          cover=['P', 'S', 'explicit', 'everything', 'rejected', 'inside', 'outside', 'list'], assumptions=LIB)
def interval(E, load):
    """headers are calculated if and only if the distance lies in the closed interval (given, or default of the phase)"""
    mod = load('rf.rfstream')
    obj, ev, st, vals, evid = c03.given(E, mod, 0, 0, stubs.AttribDict)
    kind = E.choose(6)
    args = {}
    dist, baz = c03.geometry(vals)
    lo, hi = E.real('lo'), E.real('hi')
    bad = False
    if kind == 0:
        phase = ('P', 'S')[E.choose(2)]
        lo, hi = {'P': (30, 90), 'S': (50, 85)}[phase]
        if E.choose(2):
            args['dist_range'] = 'default'
        if phase == 'S' or E.choose(2):
            args['phase'] = phase
        E.cover(phase)
    elif kind == 1:
        phase = ('p', 's')[E.choose(2)]
        lo, hi = {'p': (30, 90), 's': (50, 85)}[phase]
        args['phase'] = phase
    elif kind == 2:
        args['phase'] = phase = ('PP', 'SKS', 'PS', 'SP', 'pP', 'PKIKP', 'sS')[E.choose(7)]
        bad = True
        if E.choose(2):
            args['dist_range'] = 'default'
    elif kind == 3:
        args['phase'] = phase = SStr.word('phase')
        args['dist_range'] = (lo, hi)
        E.cover('explicit')
    elif kind == 4:
        args['phase'] = phase = SStr.word('phase')
        args['dist_range'] = DList([lo, hi])
        E.cover('list')
    else:
        args['phase'] = phase = SStr.word('phase')
        args['dist_range'] = None
        E.cover('everything')
    E.narr = None
    inside = True if kind == 5 else AND(veq(1, 1), lift(lo) <= dist, dist <= lift(hi))
    try:
        s = mod.rfstats(obj, **args)
    except ValueError:
        E.prove('rejected', bad)
        E.cover('rejected')
        return
    except Exception as ex:
        if isinstance(ex, (core.EngineExc, AttributeError, KeyError, NameError, TypeError)) or E.narr != 0:
            raise
        # no arrival of this phase: only if the pair is wanted at all
        E.prove('inside', inside)
        return
    E.prove('rejected', not bad)
    if bad:
        return
    if s is None:
        E.prove('outside', NOT(SBool(zb(inside))))
        E.cover('outside')
    else:
        E.prove('inside', inside)
        E.prove('headers', s is obj and veq(s['distance'], dist))
        E.cover('inside')


@contract('rf.rfstream.rfstats', expect=['kept', 'calls', 'samples', 'order', 'object', 'others'],
          cover=['kept', 'dropped'], assumptions=LIB + ['rfstats of one trace enters by its contract (above)'])
def select(E, load):
    """of a stream exactly the traces stay for which the headers are calculated, in order and with their samples"""
    mod = load('rf.rfstream')
    R = (mod.RFStream, stubs.Stream)[E.choose(2)]
    T = trace(E, mod.RFTrace, 'T', unknown=())
    sn = Snap(T)
    gaps = [traces(E, mod.RFTrace, 'before', unknown=()), traces(E, mod.RFTrace, 'behind', unknown=())]
    s = stream(R, [gaps[0], T, gaps[1]])
    names = ('event', 'station', 'phase', 'dist_range', 'tt_model', 'pp_depth', 'pp_phase', 'model')
    args = {}
    if E.choose(2):
        args = dict(event=c03.Event({}), station=DDict([]), phase=SStr.word('phase'), dist_range=(E.real('lo'), E.real('hi')),
                    tt_model=SStr.word('tt'), pp_depth=E.real('depth'), pp_phase=SStr.word('ppp'), model=SStr.word('model'))
    default = dict(event=None, station=None, phase='P', dist_range='default', tt_model='iasp91', pp_depth=None, pp_phase=None,
                   model='iasp91')
    seen = []
    keep = E.choose(2)
    f = mod.rfstats

    def rfstats(obj=None, event=None, station=None, phase='P', dist_range='default', tt_model='iasp91', pp_depth=None,
                pp_phase=None, model='iasp91'):
        need(isinstance(obj, stubs.Stats), 'call for the headers of a trace')
        loc = dict(event=event, station=station, phase=phase, dist_range=dist_range, tt_model=tt_model, pp_depth=pp_depth,
                   pp_phase=pp_phase, model=model)
        for k in names:
            w = args.get(k, default[k])
            E.prove('calls', loc[k] is w or AND(veq(loc[k], w)))
        if obj is T.stats:
            seen.append(obj)
            yes = keep
        else:
            # some other trace, by an arbitrary decision which only depends on the trace
            yes = bool(E.bool('inside'))
        if yes:
            obj['distance'] = E.real('distance')
            return obj
        return None
    mod.rfstats = rfstats
    r = f(s, **args)
    need(seen, 'headers of the trace')
    E.prove('calls', len(seen) == 1)
    E.prove('object', r is s)
    q = parts_of(s.traces)
    own = [t for t in q if not isinstance(t, Gap)]
    E.prove('kept', own == ([T] if keep else []))
    E.prove('order', len(q) <= 2 + keep and (not keep or len(q) < 3 or q[1] is T))
    E.prove('samples', AND(sn.samples(T.data), sn.headers(T.stats, ('distance',)), T.log == []))
    E.prove('others', all(isinstance(t, Gap) for t in q if t is not T))
    E.cover('kept' if keep else 'dropped')
