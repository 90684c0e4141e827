"""C18: rf.rfstream.RFStream.stack"""
import z3
from dv.contracts.lib import *

CONTRACTS, contract = registry()
FIELDS = ('phase', 'moveout', 'station_latitude', 'station_longitude', 'station_elevation')
HEAD = FIELDS + ('onset',)


@contract('rf.rfstream.RFStream.stack', 'rf.rfstream.RFTrace.__init__', 'rf.rfstream.RFStream.__init__',
          expect=['one', 'mean', 'members', 'header', 'onset', 'id', 'input', 'records', 'samples', 'npts'],
          cover=['alone', 'pair', 'apart'],
          assumptions=['stack: numpy mean(list of arrays, axis=0) is the elementwise mean; traces of one id have '
                       'equal length (documented)'])
def stack(E, load):
    """any number of traces among them A and B anywhere: exactly one result for the id of A, the mean of exactly the
    traces with this id, with the headers of one of them; A, B and their processing records do not change"""
    rs = load('rf.rfstream')
    # headers which are there: all, none or all but one; the other traces have the same ones or just the others
    pattern = E.choose(2 + len(HEAD))
    there = [h for i, h in enumerate(HEAD) if pattern == 0 or pattern > 1 and i != pattern - 2]
    mixed = E.choose(2) if pattern else 0
    small = pattern > 1
    made = []

    def make(base):
        keys = there if base == 'A' or not mixed else [h for h in HEAD if h not in there]
        t = trace(E, rs.RFTrace, base, npts=n, present=keys, unknown=('type',))
        made.append(t)
        return t
    n = E.int('npts', 1)
    A, B = make('A'), make('B')
    for t, b in ((A, 'A'), (B, 'B')):
        if pattern == 0 or pattern == 2:
            t.stats._put('processing', DList([Gap(b + '.history', lambda: SStr.word('entry')), SStr.word(b + '.old')]))
    records = [list(parts_of(t.stats['processing'])) if 'processing' in t.stats else None for t in (A, B)]
    gs = [Gap(b, lambda b=b: make(b)) for b in ('g1', 'g2', 'g3')]
    if small:
        gs = gs[:1]
    s = stream(rs.RFStream, [gs[0], A] if small else [gs[0], A, gs[1], B, gs[2]])
    parts = list(s.traces.parts)
    E.append_fresh = lambda x: (lambda: trace(E, rs.RFTrace, 'stacked')) if isinstance(x, stubs.Trace) else None
    together = not small and holds_or_not(A.id, B.id)
    means = []

    def gap_mean(ps, axis):
        r = SArr.symbolic(E.opaque_name('mean'), n)
        drawn = []
        for p in ps if not E.gctx else ():
            if isinstance(p, Gap):
                k = len(made)
                y = p.fresh()
                need(len(made) == k + 1, 'member of the mean is no trace of the stream')
                drawn.append((y, made[k]))
        means.append((ps, axis, r, drawn))
        return r
    E.gap_mean = gap_mean
    snaps = [Snap(A), Snap(B)]
    rf = getattr(rs.RFStream.stack, '__wrapped__', rs.RFStream.stack)
    r = rf(s)
    need(isinstance(r, rs.RFStream) and r is not s, 'result is no new stream')
    E.prove('input', len(s.traces.parts) == len(parts) and all(x is y for x, y in zip(parts, s.traces.parts)))
    for t, sn, rec in zip((A, B), snaps, records):
        E.prove('input', sn.headers(t.stats))
        E.prove('samples', sn.samples(t.data))
        if rec is not None:
            now = parts_of(t.stats['processing'])
            E.prove('records', len(now) == len(rec) and all(x is y for x, y in zip(now, rec)))
    own = [t for t in r.traces.parts if not isinstance(t, Gap)]
    mine = [t for t in own if holds_or_not(t.id, A.id)]
    E.prove('one', len(mine) == 1)
    if len(mine) != 1:
        return
    (t,) = mine
    E.prove('id', AND(*[veq(t.stats[k], A.stats[k]) for k in ('network', 'station', 'location', 'channel')]))
    E.prove('others', len(own) == (1 if together or small else 2))
    found = [m for m in means if m[2] is t.data]
    E.prove('mean', len(found) == 1)
    ps, axis, x, drawn = found[0]
    E.prove('mean', axis == 0)
    E.prove('npts', AND(veq(t.stats['npts'], n), veq(t.data.shape[0], n)))
    fixed = [p for p in ps if not isinstance(p, Gap)]
    E.prove('members', len([p for p in fixed if p is A.data]) == 1 and
            len([p for p in fixed if p is B.data]) == int(together) and len(fixed) == 1 + together)
    origin = [getattr(p, 'image_of', None) for p in ps if isinstance(p, Gap)]
    E.prove('members', len(origin) == len(gs) and all(any(o is g for o in origin) for g in gs))
    cands = [A] + ([B] if together else [])
    for y, m in drawn:
        E.prove('members', AND(veq(m.id, A.id), y is m.data))
    cands += [m for m in made[2:] if holds(veq(m.id, A.id))]
    E.prove('header', OR(*[agrees(t, c) for c in cands]))
    E.prove('onset', IMPLIES('onset' in t.stats, OR(*[onset_of(t, c) for c in cands])))
    E.prove('records', not any('processing' in c.stats and 'processing' in t.stats and
                               t.stats['processing'] is c.stats['processing'] for c in cands))
    E.cover('alone' if len(fixed) == 1 else 'pair')
    if not together and not small:
        E.cover('apart')


def holds_or_not(a, b):
    c = veq(a, b)
    return bool(c)


def agrees(t, c):
    conds = [veq(t.stats['sampling_rate'], c.stats['sampling_rate'])]
    for k in FIELDS:
        a, b = k in t.stats, k in c.stats
        if a != b:
            return False
        if a:
            conds.append(veq(t.stats[k], c.stats[k]))
    if ('onset' in t.stats) != ('onset' in c.stats):
        return False
    if any(x is False for x in conds):
        return False
    return AND(*conds)


def onset_of(t, c):
    if 'onset' not in c.stats or 'onset' not in t.stats:
        return False
    a = agrees(t, c)
    if a is False:
        return False
    return AND(a, veq(t.stats['onset'] - t.stats['starttime'], c.stats['onset'] - c.stats['starttime']))
