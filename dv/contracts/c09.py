"""C09: mirror step of rf.rfstream.RFStream.rf"""
import z3
from dv.contracts.lib import *
from dv.contracts.c08 import world, call, negated, mirrored, STEPS

CONTRACTS, contract = registry()


@contract('rf.rfstream.RFStream.rf', expect=['samples', 'onset', 'window', 'reflected', 'unmirrored', 'kept-onset'],
          cover=['S', 'P', 'deconvolved'], assumptions=STEPS)
def mirror(E, load):
    """S: samples reversed, onset reflected inside the unchanged window, the sample at time t after the old onset is
    found at time t before the new one; P: samples and onset as the last step left them"""
    method = 'PS'[E.choose(2)]
    given = ('phase', 'both', 'given')[E.choose(3)]
    grouped = E.choose(2)
    rs, s, tr, g1, g2, G, events, groupings, rf = world(E, load, method, given, grouped)
    decon = E.choose(2)
    x, onset = core.freeze(tr.data), tr.stats['onset']
    start, end, dt, n = [tr.stats[k] for k in ('starttime', 'endtime', 'delta', 'npts')]
    q = tr.stats['channel'].endswith('Q')
    call(rf, s, method, given, rotate=None, deconvolve='time' if decon else None)
    x = negated(x, q)
    d = [e for e in events if e[0] == 'deconvolve']
    if decon and grouped:
        need(len(d) == 1, 'not one deconvolution')
        x, onset = tr.after, tr.onset_after
        E.cover('deconvolved')
    st = tr.stats
    E.prove('window', AND(veq(st['starttime'], start), veq(st['endtime'], end), veq(st['delta'], dt),
                          veq(st['npts'], n), veq(tr.data.shape[0], n)))
    if method == 'P':
        E.prove('unmirrored', core.arr_eq(tr.data, x))
        E.prove('kept-onset', veq(st['onset'], onset))
        E.cover('P')
        return
    E.prove('samples', core.arr_eq(tr.data, mirrored(x)))
    E.prove('onset', veq(st['onset'] - start, end - onset))
    i = E.int('i', 0)
    E.assume(i.t < n.t)
    j = n - 1 - i
    E.prove('reflected', AND(veq(tr.data.at(j), x.at(i)), j >= 0, j < n,
                             veq((st['starttime'] + j * dt) - st['onset'], -((start + i * dt) - onset))))
    E.cover('S')
