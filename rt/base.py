"""Runtime contract oracles: shared generators, comparison helpers, case registry.

An oracle module (rt/cNN.py) registers case functions with @case(quick, thorough).  Every case gets a
numpy RandomState and a `note` dict (for a readable description of the generated input) and raises
`Broken` (or lets any exception of the code under test escape) when the contract is broken.
Everything random derives from the case seed, so (case name, seed) is a complete replay.
"""
import contextlib
import os
import shutil
import tempfile
import warnings

import numpy as np

REG = {}


class Broken(Exception):
    """The contract is broken on this input."""


class Skip(Exception):
    """Generated input is outside of the precondition."""


class Known(Exception):
    """Recorded genuine defect (known_findings.json), identified by key."""

    def __init__(self, key, msg):
        super().__init__(msg)
        self.key = key


def case(quick=20, thorough=None, budget=None):
    def deco(f):
        mod = f.__module__.split('.')[-1].upper()
        REG.setdefault(mod, []).append((f.__name__, f, quick, thorough or quick * 10))
        return f
    return deco


def need(cond, msg, *args):
    if not cond:
        raise Broken(msg % args if args else msg)


def raises(exc, f, *a, **k):
    """f must raise exc; any other outcome is a violation."""
    try:
        r = f(*a, **k)
    except exc:
        return
    except Exception as ex:
        raise Broken('%s expected, got %s: %s' % (exc, type(ex).__name__, ex))
    raise Broken('%s expected, but the call returned %r' % (exc, type(r)))


def close(a, b, rtol=1e-7, atol=1e-10):
    a = np.asarray(a, float)
    b = np.asarray(b, float)
    if a.shape != b.shape:
        return False
    return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def need_close(a, b, what, rtol=1e-7, atol=1e-10):
    a = np.asarray(a)
    b = np.asarray(b)
    need(a.shape == b.shape, '%s: shape %s instead of %s', what, a.shape, b.shape)
    if not close(a, b, rtol, atol):
        d = np.abs(np.asarray(a, float) - np.asarray(b, float))
        i = np.unravel_index(int(np.nanargmax(d)) if np.isfinite(d).any() else 0, d.shape) if d.ndim else ()
        need(False, '%s: %r instead of %r (at %s)', what, a[i] if d.ndim else a.item(),
             b[i] if d.ndim else b.item(), i)


# ---------------------------------------------------------------- generators
T0 = 1262304000.0  # 2010-01-01


def utc(x):
    from obspy import UTCDateTime
    return UTCDateTime(x)


def rand_time(rng):
    """Origin times on a grid of 0.125 s so that float arithmetic with delta is exact enough."""
    return utc(T0 + rng.randint(0, 10 ** 8) + rng.choice([0, 0.125, 0.5, 0.25]))


def pick(rng, seq):
    return seq[rng.randint(len(seq))]


def rand_data(rng, n, kind=None):
    kind = kind or pick(rng, ['normal', 'normal', 'int', 'spiky', 'offset'])
    if kind == 'normal':
        return rng.randn(n)
    if kind == 'int':
        return rng.randint(-1000, 1000, n).astype(float)
    if kind == 'spiky':
        d = np.zeros(n)
        if n:
            d[rng.randint(0, n, max(1, n // 7))] = rng.randn(max(1, n // 7)) * 10
        return d
    return rng.randn(n) + 5


SRS = [1., 2., 4., 5., 8., 10., 20.]


def rand_header(rng, sr=None, start=None, net='XX', sta='AAA', loc='', cha='BHZ'):
    return {'network': net, 'station': sta, 'location': loc, 'channel': cha,
            'sampling_rate': sr or pick(rng, SRS), 'starttime': start or rand_time(rng)}


def ray_headers(rng, onset):
    return {'onset': onset, 'event_time': onset - rng.randint(100, 900),
            'event_latitude': rng.uniform(-80, 80), 'event_longitude': rng.uniform(-180, 180),
            'event_depth': rng.uniform(0, 600), 'event_magnitude': round(rng.uniform(4, 9), 1),
            'station_latitude': rng.uniform(-80, 80), 'station_longitude': rng.uniform(-180, 180),
            'station_elevation': float(rng.randint(-100, 4000)),
            'distance': rng.uniform(30, 90), 'back_azimuth': rng.uniform(0, 360),
            'inclination': rng.uniform(5, 50), 'slowness': rng.uniform(4.5, 9), 'phase': 'P'}


def group(rng, comps='ZNE', n=None, sr=None, sta='AAA', loc='', net='XX', band='BH', onset_at=None,
          extra=None, data=None, start=None, type=None):
    """Traces of one event and one station."""
    from rf.rfstream import RFTrace
    sr = sr or pick(rng, SRS)
    n = n or int(rng.randint(60, 200))
    start = start or rand_time(rng)
    if onset_at is None:
        onset_at = int(rng.randint(n // 3, 2 * n // 3)) / sr
    onset = start + onset_at
    ray = ray_headers(rng, onset)
    ray.update(extra or {})
    out = []
    for i, c in enumerate(comps):
        h = rand_header(rng, sr, start, net, sta, loc, band + c)
        h.update(ray)
        if type:
            h['type'] = type
        out.append(RFTrace(data=rand_data(rng, n) if data is None else data[i].copy(), header=h))
    return out


def stream(traces):
    from rf import RFStream
    return RFStream(traces)


def snap(tr, ignore=()):
    """Deep snapshot of a trace: samples and all headers."""
    import copy
    return (np.array(tr.data, copy=True), copy.deepcopy({k: v for k, v in tr.stats.items()
                                                         if k not in ignore}))


def same_snap(a, b, what, ignore=(), rtol=0):
    da, ha = a
    db, hb = b
    need(da.shape == db.shape and np.array_equal(np.ma.filled(da, -99), np.ma.filled(db, -99),
         equal_nan=da.dtype.kind == 'f'), '%s: samples changed', what)
    for k in sorted(set(ha) | set(hb)):
        if k in ignore:
            continue
        need(k in ha, '%s: header %s=%r appeared', what, k, hb.get(k))
        need(k in hb, '%s: header %s=%r disappeared', what, k, ha.get(k))
        need(eq(ha[k], hb[k]), '%s: header %s is %r instead of %r', what, k, hb[k], ha[k])


def eq(a, b):
    try:
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            return np.array_equal(a, b)
        if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
            return True
        return bool(a == b)
    except Exception:
        return False


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='rfverif_')
    old = os.getcwd()
    try:
        os.chdir(d)
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def patched(obj, name, value):
    """Replace an attribute of a library object for the duration of the case."""
    had = name in vars(obj)
    old = vars(obj).get(name)
    setattr(obj, name, value)
    try:
        yield
    finally:
        if had:
            setattr(obj, name, old)
        else:
            delattr(obj, name)


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        yield
