"""C26: layered model construction (rf.simple_model._interpolate_n, SimpleModel.__init__)"""
import z3
from dv.contract import registry, need
from dv.core import SArr, SNum, veq, AND, IMPLIES, lift
from dv import core

CONTRACTS, contract = registry()



def model_inputs(E, with_n=True, ints=True):
    N = E.int('N', 2)
    dt = 'fi'[E.choose(2)] if ints else 'f'
    z, vp, vs = (SArr.symbolic(b, N, dt) for b in ('z', 'vp', 'vs'))
    n = None
    if with_n:
        f = z3.Function('n', z3.IntSort(), z3.IntSort())

        def at(i):
            t = f(core.int_t(i))
            E.assume(z3.Implies(z3.And(core.int_t(i) >= 0, core.int_t(i) < N.t), t >= 0))
            return SNum(t)
        n = SArr((N,), at, 'i')
    return N, z, vp, vs, n


@contract('rf.simple_model._interpolate_n', expect=['length', 'kept', 'support', 'last'], cover=['end'])
def interpolate(E, load):
    """requires len(n) == len(val) = N >= 2, n >= 0; ensures: result is, for i = 0..N-2 in order, n[i+1]+1 values
    val[i] + j (val[i+1] - val[i]) / (n[i+1] + 1), j = 0..n[i+1], followed by val[N-1]"""
    f = load('rf.simple_model')._interpolate_n
    N, z, vp, vs, n = model_inputs(E)
    r = f(z, n)
    need(len(E.blocks) == 1, 'not one concatenation')
    (b,) = E.blocks
    i = E.int('i', 0)
    E.assume(i.t < N.t - 1)
    b.rep(i)
    j = E.int('j', 0)
    E.assume(j.t <= n.at(i + 1).t)
    off = SNum(b.off(i.t))
    E.prove('blocks', z3.And(b.a == 0, b.b == N.t - 1))
    E.prove('length', veq(b.array(i.t).shape[0], n.at(i + 1) + 1))
    E.prove('kept', AND(IMPLIES(j == 0, veq(r.at(off + j), z.at(i)))))
    E.prove('support', veq(r.at(off + j), z.at(i) + j * (z.at(i + 1) - z.at(i)) / (n.at(i + 1) + 1)))
    E.prove('last', veq(r.shape[0], SNum(b.off(N.t - 1)) + 1))
    E.prove('last', veq(r.at(r.shape[0] - 1), z.at(N - 1)))
    E.cover('end')


@contract('rf.simple_model.SimpleModel.__init__', expect=['z', 'vp', 'vs', 'dz', 'ordered', 'size'],
          cover=['inner', 'boundary', 'end'])
def model(E, load):
    """ensures: model.z, vp, vs hold the interpolated values without the last one, dz the differences"""
    N, z, vp, vs, n = model_inputs(E)
    m = load('rf.simple_model').SimpleModel(z, vp, vs, n)
    i = E.int('i', 0)
    E.assume(i.t < N.t - 1)
    for b in E.blocks:
        b.rep(i)
    nn = n.at(i + 1)
    j = E.int('j', 0)
    E.assume(j.t <= nn.t)
    last = E.choose(2)
    if last:
        # last support point of the layer: the next one is the next given depth
        E.assume(j.t == nn.t)
        if E.choose(2):
            E.assume(i.t + 1 < N.t - 1)
            for b in E.blocks:
                b.rep(i + 1)
            E.cover('boundary')
        else:
            E.assume(i.t == N.t - 2)
            E.cover('end')
    else:
        E.assume(j.t < nn.t)
        E.cover('inner')
    need(len(E.blocks) == 3, 'not three concatenations')
    for b in E.blocks[1:]:
        # all three are blocked alike: same block lengths
        E.prove('alike', veq(b.array(i.t).shape[0], E.blocks[0].array(i.t).shape[0]))
        # lemma (induction over i from equal block lengths): equal offsets
        for x in (i.t, i.t + 1, N.t - 1):
            E.assume(b.off(x) == E.blocks[0].off(x))
    off = SNum(E.blocks[0].off(i.t))
    k = off + j
    step = 1 / (nn + 1)
    for nm, a, v in (('z', m.z, z), ('vp', m.vp, vp), ('vs', m.vs, vs)):
        E.prove('size', veq(a.shape[0], SNum(E.blocks[0].off(N.t - 1))))
        E.prove(nm, veq(a.at(k), v.at(i) + j * step * (v.at(i + 1) - v.at(i))))
    E.prove('size', veq(m.dz.shape[0], SNum(E.blocks[0].off(N.t - 1))))
    d = m.dz.at(k)
    E.prove('dz', veq(d, (z.at(i + 1) - z.at(i)) * step))
    E.prove('ordered', IMPLIES(z.at(i + 1) >= z.at(i), d >= 0))
    E.prove('cache', len(m.t_ref) == 0)


@contract('rf.simple_model.SimpleModel.__init__', expect=['z', 'dz'], cover=['end'])
def model_plain(E, load):
    """n omitted: values are kept without the last one"""
    N, z, vp, vs, n = model_inputs(E, False)
    m = load('rf.simple_model').SimpleModel(z, vp, vs)
    k = E.int('k', 0)
    E.assume(k.t < N.t - 1)
    for nm, a, v in (('z', m.z, z), ('vp', m.vp, vp), ('vs', m.vs, vs)):
        E.prove(nm, AND(veq(a.shape[0], N - 1), veq(a.at(k), v.at(k))))
    E.prove('dz', AND(veq(m.dz.shape[0], N - 1), veq(m.dz.at(k), z.at(k + 1) - z.at(k))))
    E.prove('ordered', IMPLIES(z.at(k + 1) >= z.at(k), m.dz.at(k) >= 0))
    E.cover('end')


@contract('rf.simple_model.SimpleModel.__init__', expect=['rejected'], cover=['end'])
def rejected(E, load):
    """lengths differ: AssertionError"""
    a, b, c = (E.int(x, 2) for x in ('Nz', 'Np', 'Ns'))
    E.assume(z3.Or(a.t != b.t, b.t != c.t))
    z, vp, vs = SArr.symbolic('z', a), SArr.symbolic('vp', b), SArr.symbolic('vs', c)
    try:
        load('rf.simple_model').SimpleModel(z, vp, vs)
    except Exception:
        E.prove('rejected', True)
    else:
        E.prove('rejected', False)
    E.cover('end')
