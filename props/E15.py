"""Fidelity: the overlap of s-parameters with the desired ones."""
from symx.harness import Case
from symx.nd import SA, plain
from .gridlib import *

FUNCTIONS = ['sim.SimGrid.fidelity']


def sim(names):
    from simphox.sim import SimGrid
    from simphox.grid import Port
    s = SimGrid((8.0, 8.0), 1.0)
    s.port = {n: Port(4.0, 4.0) for n in names}
    return s


def desired(I, keys):
    return {k: I.cplx(f'd{i}') for i, k in enumerate(keys)}


def arg(I, x):
    if I.sym:
        return I.jarr(x)
    import jax.numpy as jnp
    return jnp.asarray(x)


def sq(I, z):
    return I.np.real(z * I.np.conj(z))


def val(I, c):
    if not I.sym:
        return float(c)
    a = plain(c) if not hasattr(c, 'is_const') else c
    return a.ravel()[0] if hasattr(a, 'ravel') else a


def overlap(I, names, keys, info=None, weight=0, scale=False):
    """minus the squared magnitude of the overlap, 0 for orthogonal ones, minus the power for proportional ones; insertion weighs the power"""
    s = sim(names)
    d = desired(I, keys)
    n2 = sum(sq(I, v) for v in d.values())
    I.assume(n2 > 0.05)
    order = info or [(n, 0) for n in names]
    x = I.cplxs('x', len(order))
    p = sum(sq(I, v) for v in x)
    I.assume(p > 0.05)
    kw = {} if info is None else dict(measure_info=list(info))
    if weight:
        w = I.real('w', 0.1, 0.9) if weight == 'sym' else weight
        kw['insertion_weight'] = w
    fields = arg(I, I.reals('f', 2))
    f = s.fidelity(dict(d), **kw)
    x0 = x.copy()
    cost, aux = f((arg(I, x), fields))
    I.eq(x, x0, 'the s-parameters stay')
    I.eq(plain(aux[1]).view(SA) if I.sym else np.asarray(aux[1]), plain(fields).view(SA) if I.sym else np.asarray(fields), 'fields are handed on')
    I.eq(plain(aux[0]).view(SA) if I.sym else np.asarray(aux[0]), x, 's-parameters are handed on')
    full = {(k if isinstance(k, tuple) else (k, 0)): v for k, v in d.items()}
    ov = sum(I.np.conj(full.get(k, 0 * x[0])) * v for k, v in zip(order, x))
    o2 = sq(I, ov) / n2
    want = -o2 if not weight else -o2 / p * (1 - w) - p * w
    I.eq(val(I, cost), want, 'overlap with the desired s-parameters')


def best(I, names, keys, weight=0):
    """the desired s-parameters themselves have the fidelity of their power, whatever the common phase"""
    s = sim(names)
    d = desired(I, keys)
    n2 = sum(sq(I, v) for v in d.values())
    I.assume(n2 > 0.05)
    kw = {}
    if weight:
        kw['insertion_weight'] = weight
    c = I.cis(I.angle('phase'))
    full = {(k if isinstance(k, tuple) else (k, 0)): v for k, v in d.items()}
    order = list(full)
    x = I.cplxs('x', len(order)) * 0 + np.array([full[k] * c for k in order], dtype=object if I.sym else complex)
    cost, _ = s.fidelity(dict(d), measure_info=order, **kw)((arg(I, x), arg(I, I.reals('f', 2))))
    I.eq(val(I, cost), -n2 * (weight or 1) - ((1 - weight) if weight else 0), 'fidelity of the desired s-parameters')


def cases(tier):
    N = ('a', 'b', 'c')
    cs = [Case(overlap, names=N, keys=k, info=i, weight=w) for w in (0, 0.25, 'sym') for k, i in (
        (('a', 'b'), None), (('c',), None), (('c', 'a', 'b'), None), ((('b', 0), 'a'), None), ((('b', 1), ('a', 0)), (('a', 0), ('b', 1), ('b', 0))), (('c', 'b'), (('c', 0), ('a', 0), ('b', 0))))]
    cs += [Case(best, names=N, keys=k, weight=w) for w in (0, 0.25, 0.5) for k in (('a', 'b'), ('b',), (('c', 1), ('c', 0), ('a', 0)))]
    if tier == 'thorough':
        cs += [Case(overlap, names=tuple('abcde'), keys=k, weight=w) for w in (0, 'sym') for k in (('e', 'b', 'a'), tuple('edcba'), ('d',))]
        cs += [Case(best, names=tuple('abcde'), keys=tuple('ebda'), weight=w) for w in (0, 0.9)]
    return cs
