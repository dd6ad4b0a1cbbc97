"""Transforms of designs: reflections, smoothing and projection."""
from symx.harness import Case
from symx.nd import SA, plain
from .gridlib import *

FUNCTIONS = ['transform.get_symmetry_fn', 'transform.get_smooth_fn']


def call(I, f, x):
    out = f(I.jarr(x) if I.sym else jx(x))
    return plain(out).view(SA) if I.sym else np.asarray(out)


def jx(x):
    import jax.numpy as jnp
    return jnp.asarray(x)


REFLECT = dict(ortho_x=lambda x: x[::-1], ortho_y=lambda x: x[:, ::-1], diag_p=lambda x: x.T, diag_n=lambda x: x[::-1, ::-1].T)


def symmetric(I, shape, avg, **sym):
    """results are symmetric; symmetric designs stay; the first half (or the average) is kept; inputs are not changed; applying twice changes nothing"""
    from simphox.transform import get_symmetry_fn
    f = get_symmetry_fn(**sym, avg=avg)
    x = I.reals('x', *shape)
    x0 = x.copy()
    y = call(I, f, x)
    I.eq(x, x0, 'the design passed in stays')
    I.true(y.shape == tuple(shape), 'shape')
    for k in sym:
        I.eq(y, REFLECT[k](y), f'symmetry {k}')
    I.eq(call(I, f, y), y, 'symmetric designs stay')
    ortho = [k for k in sym if k.startswith('ortho')]
    if avg or len(ortho) < len(sym):
        z = x
        if not avg and ortho:
            z = half(I, x, ortho)
            ortho, rest = [], [k for k in sym if k not in ortho]
        else:
            rest = list(sym)
        for k in rest:
            z = (z + REFLECT[k](z)) / 2
        I.eq(y, z, 'average of the reflected designs')
    else:
        I.eq(y, half(I, x, ortho), 'the first half is reflected')


def half(I, x, ortho):
    z = x.copy()
    n, m = x.shape
    if 'ortho_x' in ortho:
        for i in range(n // 2):
            z[n - 1 - i] = z[i]
    if 'ortho_y' in ortho:
        for i in range(m // 2):
            z[:, m - 1 - i] = z[:, i]
    return z


def none(I, shape, avg):
    """no symmetry asked for"""
    from simphox.transform import get_symmetry_fn
    x = I.reals('x', *shape)
    I.eq(call(I, get_symmetry_fn(avg=avg), x), x, 'designs stay')


def smooth(I, shape, radius, beta=None, eta=None):
    """projection of the average over a disk; empty and full designs map to 0 and (inside) 1; values stay between 0 and 1"""
    from simphox.transform import get_smooth_fn
    beta = I.pos('beta', 0.1, 20) if beta is None else beta
    eta = I.real('eta', 0.05, 0.95) if eta is None else eta
    f = get_smooth_fn(beta, radius, eta)
    rho = I.reals('rho', *shape)
    x0 = rho.copy()
    y = call(I, f, rho)
    I.eq(rho, x0, 'the design passed in stays')
    disk = [(i, j) for i in range(-radius, radius + 1) for j in range(-radius, radius + 1) if i * i + j * j < (radius + 1) ** 2]
    avg = rho * 0
    n, m = shape
    for a in range(n):
        for b in range(m):
            s = sum(rho[a + i, b + j] for i, j in disk if 0 <= a + i < n and 0 <= b + j < m)
            avg[a, b] = s / len(disk)
    t = I.np.tanh
    I.eq(y, (t(beta * eta) + t(beta * (avg - eta))) / (t(beta * eta) + t(beta * (1 - eta))), 'projection of the average')
    zero = call(I, f, rho * 0)
    I.eq(zero, rho * 0, 'empty designs stay')
    one = call(I, f, rho * 0 + 1)
    for a in range(radius, n - radius):
        for b in range(radius, m - radius):
            I.eq(one[a, b], 1, 'full designs stay inside')


def cases(tier):
    cs = []
    for avg in (False, True):
        for s in ((4, 4), (5, 5), (3, 4), (5, 2)):
            cs += [Case(symmetric, shape=s, avg=avg, **k) for k in (dict(ortho_x=True), dict(ortho_y=True), dict(ortho_x=True, ortho_y=True))] + [Case(none, shape=s, avg=avg)]
        for s in ((3, 3), (4, 4)):
            cs += [Case(symmetric, shape=s, avg=avg, **k) for k in (dict(diag_p=True), dict(diag_n=True), dict(diag_p=True, diag_n=True), dict(ortho_x=True, ortho_y=True, diag_p=True), dict(ortho_x=True, ortho_y=True, diag_n=True),
                                                                    dict(ortho_x=True, ortho_y=True, diag_p=True, diag_n=True))]
    cs += [Case(smooth, shape=s, radius=r) for s, r in (((3, 4), 1), ((5, 5), 2), ((4, 3), 1))]
    cs += [Case(smooth, shape=(5, 6), radius=2, beta=b, eta=e) for b, e in ((1.0, 0.5), (8.0, 0.4))]
    if tier == 'thorough':
        cs += [Case(symmetric, shape=s, avg=avg, **k) for avg in (False, True) for s in ((7, 6), (8, 8), (2, 1), (1, 3)) for k in (dict(ortho_x=True), dict(ortho_y=True), dict(ortho_x=True, ortho_y=True))]
        cs += [Case(symmetric, shape=(n, n), avg=avg, **k) for avg in (False, True) for n in (6, 7) for k in (dict(diag_p=True, diag_n=True), dict(ortho_x=True, ortho_y=True, diag_p=True, diag_n=True))]
        cs += [Case(smooth, shape=s, radius=r) for s, r in (((8, 8), 3), ((7, 9), 2), ((10, 10), 4))]
    return cs
