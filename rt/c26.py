"""C26: model refinement keeps boundaries and inserts evenly spaced support points."""
import os
import numpy as np
from rt.base import *


def tables(rng, k=None):
    k = k or int(rng.randint(2, 15))
    z = np.hstack([[pick(rng, [0., 0., 2.5])], rng.uniform(0, 40, k - 1) * (rng.rand(k - 1) > .15)]).cumsum()
    vp, vs = rng.uniform(4, 9, k), rng.uniform(2, 5, k)
    n = rng.randint(0, 6, k) * (rng.rand(k) > .3)
    return z, vp, vs, n.astype(int)


def refine(v, n):
    out = []
    for i in range(len(v) - 1):
        m = int(n[i + 1])
        for j in range(m + 1):
            out.append(v[i] + (v[i + 1] - v[i]) * j / (m + 1))
    out.append(v[-1])
    return np.array(out)


def check(m, z, vp, vs, n, what, tol=1e-9):
    if n is None:
        n = np.zeros(len(z), int)
    z, vp, vs = (refine(x, n) for x in (z, vp, vs))
    need_close(m.z, z[:-1], what + ' depths', rtol=tol, atol=tol)
    need_close(m.dz, np.diff(z), what + ' thicknesses', rtol=tol, atol=tol)
    need_close(m.vp, vp[:-1], what + ' vp', rtol=tol, atol=tol)
    need_close(m.vs, vs[:-1], what + ' vs', rtol=tol, atol=tol)
    need((np.asarray(m.dz) >= -1e-12).all(), 'negative thickness')
    need(abs(np.sum(m.dz) - (z[-1] - z[0])) < 1e-8, 'thicknesses do not sum to the depth range')


@case(200, 4000)
def build(rng, note):
    """SimpleModel from tables"""
    import rf.simple_model as sm
    z, vp, vs, n = tables(rng)
    use_n = rng.rand() < .75
    conv = pick(rng, [np.array, list])
    if rng.rand() < .3:         # tables of integers
        z, vp, vs = np.round(z).astype(int), np.round(vp).astype(int), np.round(vs).astype(int)
    note.update(z=repr(z[:4]), n=repr(n), use_n=use_n)
    keep = [x.copy() for x in (z, vp, vs, n)]
    if use_n:
        m = sm.SimpleModel(conv(z), conv(vp), conv(vs), conv(n))
    else:
        m = sm.SimpleModel(np.array(z, float), np.array(vp, float), np.array(vs, float))
    check(m, z, vp, vs, n if use_n else None, 'model')
    need(all(np.array_equal(a, b) for a, b in zip(keep, (z, vp, vs, n))), 'input changed')


@case(30, 300)
def load(rng, note):
    """models loaded from 3 or 4 column files"""
    import rf.simple_model as sm
    z, vp, vs, n = tables(rng)
    four = rng.rand() < .5
    with scratch() as d:
        fn = os.path.join(d, 'm%d.dat' % rng.randint(10 ** 9))
        np.savetxt(fn, np.array([z, vp, vs, n] if four else [z, vp, vs]).T, header='model', fmt='%.10g')
        # three layers and no n column would be read as a table of rows: loadtxt decides, columns are fixed
        z, vp, vs = np.loadtxt(fn, unpack=True)[:3]
        note.update(four=four, layers=len(z), z1=z[-1])
        m = sm.load_model(fn)
    check(m, z, vp, vs, n if four else None, 'loaded model')


@case(30, 200)
def different_length(rng, note):
    """inputs of different length are rejected"""
    import rf.simple_model as sm
    z, vp, vs, n = tables(rng, int(rng.randint(3, 8)))
    args = [z, vp, vs]
    i = rng.randint(3)
    args[i] = args[i][:-1] if rng.rand() < .5 else np.hstack([args[i], args[i][-1:]])
    if rng.rand() < .5:
        args.append(n)
    note.update(which=int(i), lens=repr([len(a) for a in args]))
    raises(Exception, sm.SimpleModel, *args)


@case(1, 1)
def iasp91(rng, note):
    """the shipped model"""
    import rf
    import rf.simple_model as sm
    fn = os.path.join(os.path.dirname(rf.__file__), 'data', 'iasp91.dat')
    z, vp, vs, n = np.loadtxt(fn, unpack=True)
    check(sm.load_model(), z, vp, vs, n.astype(int), 'iasp91')
