"""symbolic traces and streams, frame conditions"""
import z3
from dv import core, stubs
from dv.core import (SArr, SNum, SBool, SUTC, SStr, SPhase, Gap, DList, DDict, veq, AND, OR, NOT, IMPLIES, lift, zb,
                     freeze, int_t, real_t, holds, parts_of, ite)
from dv.contract import registry, need   # noqa: F401

NUMBER = ('event_latitude', 'event_longitude', 'event_depth', 'event_magnitude', 'station_latitude',
          'station_longitude', 'station_elevation', 'distance', 'back_azimuth', 'inclination', 'slowness', 'pp_latitude',
          'pp_longitude', 'pp_depth', 'box_pos', 'box_length', 'slowness_before_moveout')
TIME = ('onset', 'event_time')
TEXT = ('type', 'phase', 'moveout', 'event_id')


def header_value(E, key, base):
    if key in NUMBER:
        return E.real('%s.%s' % (base, key))
    if key in TIME:
        return SUTC(E.real('%s.%s' % (base, key)))
    if key in TEXT:
        return SStr.word('%s.%s' % (base, key))
    return None


def text(E, base):
    """a string with at least one letter"""
    return SStr([SStr.char(base + '.first'), SStr.word(base)])


def ending(E, base):
    """a string with at least one letter, of which the last one is looked at"""
    return SStr([SStr.word(base), SStr.char(base + '.last')])


def div(a, b):
    """a / b without regard to a zero denominator"""
    return SNum._div(lift(a), lift(b), False)


def fill(E, st, base, present, values):
    sr = E.real(base + '.sr')
    E.assume(sr.t > 0)
    st._put('sampling_rate', sr)
    dt = div(1, sr)
    st._put('delta', dt)
    E.assume(z3.And(dt.t > 0, dt.t * sr.t == 1))
    st._put('starttime', SUTC(E.real(base + '.start')))
    for k in ('network', 'station', 'location'):
        st._put(k, SStr.word('%s.%s' % (base, k)))
    st._put('channel', SStr([SStr.word(base + '.chan').pieces[0], SStr.char(base + '.comp').pieces[0]]))
    for k in present:
        st._put(k, header_value(E, k, base))
    for k, v in values.items():
        st._put(k, v() if callable(v) else v)


def trace(E, cls, base, npts=None, present=('onset',), values={}, unknown=None, data=None, dtype='f'):
    """a trace with arbitrary samples and headers; `unknown`: names of headers that may or may not be there (None:
    any header may be there)"""
    tr = cls.__new__(cls)
    core.newborn(tr)
    object.__setattr__(tr, 'log', [])
    st = stubs.Stats()
    n = npts if npts is not None else E.int(base + '.npts', 0)
    cache = {}

    def open_(key):
        v = header_value(E, key, base)
        if v is None or unknown is not None and key not in unknown:
            return None
        return (E.bool('%s.has_%s' % (base, key)), v)
    fill(E, st, base, present, values)
    st._put('npts', n)
    for k in st.ks:
        cache[k] = None
        cache['-' + k] = True
    object.__setattr__(st, 'open_', (open_, cache))
    object.__setattr__(tr, 'stats', st)
    object.__setattr__(tr, 'data', data if data is not None else SArr.symbolic(base + '.data', n, dtype))
    return tr


def traces(E, cls, base, **kw):
    """any number of such traces"""
    return Gap(base, lambda: trace(E, cls, base, **kw))


def stream(cls, parts, **attrs):
    s = cls.__new__(cls)
    object.__setattr__(s, 'traces', DList(parts))
    for k, v in attrs.items():
        object.__setattr__(s, k, v)
    return s


class Snap(object):
    """state of a trace, for frame conditions"""

    def __init__(self, tr):
        self.ks, self.vs = list(tr.stats.ks), list(tr.stats.vs)
        self.data, self.log = tr.data, list(tr.log)
        self.frozen = freeze(tr.data)
        self.cache = dict(tr.stats.open_[1]) if tr.stats.open_ else {}

    def headers(self, st, skip=()):
        """condition: headers as before, except `skip`"""
        now = dict((k, v) for k, v in zip(st.ks, st.vs))
        conds = []
        for k, v in zip(self.ks, self.vs):
            if k in skip:
                continue
            if k not in now:
                return False
            conds.append(veq(now.pop(k), v))
        for k in now:
            if k in skip:
                continue
            c = st.open_[1].get(k) if st.open_ else None
            if c is not None and c[1] is now[k] and self.cache.get(k) in (None, c):
                continue            # was there before, read only
            return False
        if any(c is False for c in conds):
            return False
        return AND(*[c for c in conds if c is not True])

    def samples(self, a):
        return core.arr_eq(a, self.frozen)


def same(E, a, b):
    return zb(veq(a, b)) if not isinstance(veq(a, b), bool) else veq(a, b)


def same_text(a, b):
    """equality of rendered texts: piecewise, or else decided with unique texts for all values rendered in them"""
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if not isinstance(a, (str, SStr)) or not isinstance(b, (str, SStr)):
        return False
    pa, pb = [x.pieces if isinstance(x, SStr) else [x] for x in (a, b)]
    known = []

    def token(p):
        for i, q in enumerate(known):
            if p is q or p.kind == q.kind and core.holds(p.eq(q) if not hasattr(p, 'key') else veq(p, q)):
                return '\x01%d\x02' % i
        known.append(p)
        return '\x01%d\x02' % (len(known) - 1)
    return ''.join(p if isinstance(p, str) else token(p) for p in pa) == \
        ''.join(p if isinstance(p, str) else token(p) for p in pb)
