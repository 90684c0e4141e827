"""C05: component grouping is an exact partition of the stream."""
import numpy as np
from rt.base import *


def rand_stream(rng, note, big=False):
    from obspy import Stream, Trace
    from rf import RFStream
    from rf.rfstream import RFTrace
    cls, tcls = pick(rng, [(RFStream, RFTrace), (RFStream, RFTrace), (Stream, Trace)])
    n = pick(rng, [0, 1, 2, 3, 6, 9, 12, 30 if big else 15])
    t0 = rand_time(rng)
    times = [t0, t0 + 100, t0 + 1000.5, t0 + 0.001]
    tr = []
    for i in range(n):
        h = rand_header(rng, 1., start=t0, net=pick(rng, ['XX', 'X']), sta=pick(rng, ['AAA', 'AAB', 'XAAA']),
                        loc=pick(rng, ['', '', '00']),
                        cha=pick(rng, ['BH', 'BH', 'HH']) + pick(rng, list('ZNE123QT')))
        h['onset'] = pick(rng, times)
        h['foo'] = pick(rng, [1, 2, 10, None, 'a'])
        tr.append(tcls(data=np.arange(3.) + i, header=h))
    note.update(cls=cls.__name__, traces=[(t.id, str(t.stats.onset), t.stats.foo) for t in tr])
    s = cls(tr)
    return s, list(s)


@case(150, 4000)
def partition(rng, note):
    """random streams, keys and component-count filters"""
    from rf.util import IterMultipleComponents
    s, traces = rand_stream(rng, note)
    key = pick(rng, [None, 'onset', 'foo', 'starttime', 'station', 'delta'])
    n = pick(rng, [None, None, 1, 2, 3, (2, 3), [1, 3], (1,), (0,), (4, 5), (2, 3), 0])
    note.update(key=key, number_components=n)
    ims = IterMultipleComponents(s, key=key, number_components=n)
    want = {}
    for i, t in enumerate(traces):
        k = (t.id[:-1], None if key is None else str(t.stats[key]))
        want.setdefault(k, []).append(i)
    ok = [v for v in want.values() if n is None or (len(v) == n if isinstance(n, int) else len(v) in n)]
    for rep in range(2):
        got = list(ims)
        idx = [[[j for j, t in enumerate(traces) if t is x][0] for x in g] for g in got]
        need(sorted(idx) == sorted(ok), 'groups %s instead of %s', sorted(idx), sorted(ok))
        for g in got:
            need(type(g) is type(s), 'group of type %s', type(g))
        need(len(ims) == len(ok), 'len is %d instead of %d', len(ims), len(ok))
    need(len(s) == len(traces) and all(a is b for a, b in zip(s, traces)), 'input stream changed')


@case(5, 20)
def missing_key(rng, note):
    """a trace without the key entry is an error, not silently grouped"""
    from rf.util import IterMultipleComponents
    s, traces = rand_stream(rng, note)
    if not traces:
        raise Skip()
    raises(Exception, lambda: list(IterMultipleComponents(s, key='nosuchheader')))
