"""The differentiable (JAX) FDFD solver returns the fields of the NumPy solver for the permittivity produced by the transform.

Same contract for the linear solvers as in E03; host callbacks run their host function."""
from symx.harness import Case
from symx.nd import SA, plain
from .E02 import avg, pml_eps, along
from .E03 import run
from .gridlib import *

FUNCTIONS = ['fdfd.FDFD.get_fields_fn', 'primitives.spsolve', 'primitives.TMOperator', 'utils.yee_avg_jax', 'utils.yee_avg_2d_z', 'grid.YeeGrid.diff_fn', 'utils.curl_fn']


def build(I, shape, bloch='', pml=0, cplx=False):
    """a grid whose own permittivity is not the one the solver is asked for"""
    from simphox.fdfd import FDFD
    n3 = shape3(shape)
    w = I.pos('wavelength', 0.5, 3.0) if pml != 'fixed' else 1.55
    k0 = 2 * np.pi / w
    if pml:
        g = FDFD(tuple(0.25 * n for n in shape), 0.25, wavelength=w, eps=2.0, pml=tuple(1.0 for _ in shape), pml_sep=1)
        s = [g.scpml(a) if n > 1 else (1, 1) for a, n in enumerate(n3)]
        F = lambda f, a: fdiff(I, f, a, n3, 0.25) / along(s[a][0], a)
        B = lambda f, a: bdiff(I, f, a, n3, 0.25) / along(s[a][1], a)
        rho = pml_eps(I, shape)
    else:
        sp = spacings(I, shape)
        ph = phases(I, shape, bloch)
        g = FDFD(sizes(sp, shape), sp, wavelength=w, eps=2.0, bloch_phase=ph if bloch else 0.0)
        F, B = ops(I, n3, tuple(sp) + (1,) * (3 - len(shape)), tuple(ph) + (None,) * (3 - len(shape)) if bloch else None)
        rho = eps_of(I, shape)
    return g, n3, k0, F, B, rho


def transform(rho):
    return 1.5 + 2 * rho[::-1]


def fields(I, g, src, rho, t, tm, x):
    if I.sym:
        src, rho = I.jarr(src), I.jarr(rho)
    else:
        import jax.numpy as jnp
        src, rho = np.asarray(src), jnp.array(rho)
    with run(I, x):
        f = g.get_fields_fn(src, transform if t else None, tm_2d=tm)(rho)
    return plain(f).view(SA) if I.sym else np.asarray(f)


def prepare(I, rho, n3, t):
    return avg(I, (transform(rho) if t else rho).reshape(n3))


def te(I, shape, t=False, real=False, **k):
    g, n3, k0, F, B, rho = build(I, shape, **k)
    et = prepare(I, rho, n3, t)
    ez = I.reals('e', *n3) if real else I.cplxs('e', *n3)
    e = I.np.stack([ez * 0, ez * 0, ez])
    src = (curl(I, B, curl(I, F, e))[2] - k0 ** 2 * et[2] * ez) / k0
    f = fields(I, g, src.reshape(shape), rho, t, False, ez)
    I.eq(f[0], e, 'electric field solves the system')
    I.eq(-1j * k0 * f[1], curl(I, F, f[0]), "Faraday's law")


def tm(I, shape, t=False, real=False, **k):
    g, n3, k0, F, B, rho = build(I, shape, **k)
    et = prepare(I, rho, n3, t)
    hz = I.reals('h', *n3) if real else I.cplxs('h', *n3)
    h = I.np.stack([hz * 0, hz * 0, hz])
    src = (curl(I, B, curl(I, F, h) / et)[2] - k0 ** 2 * hz) / k0
    f = fields(I, g, src.reshape(shape), rho, t, True, hz)
    I.eq(f[1], h, 'magnetic field solves the system')
    I.eq(1j * k0 * et * f[0], curl(I, B, f[1]), "Ampere's law")


def vector(I, shape, t=False, real=False, **k):
    g, n3, k0, F, B, rho = build(I, shape, **k)
    et = prepare(I, rho, n3, t)
    e = I.reals('e', 3, *n3) if real else I.cplxs('e', 3, *n3)
    src = (curl(I, B, curl(I, F, e)) - k0 ** 2 * et * e) / k0
    f = fields(I, g, src, rho, t, True, e)
    tol = 2e-5 if I.sym else 2e-2  # the iterative solver stops at a relative residual of 1e-5
    I.eq(f[0], e, 'electric field solves the system', tol=tol)
    I.eq(-1j * k0 * f[1], curl(I, F, f[0]), "Faraday's law", tol=tol)


def cases(tier):
    s2 = [(4,), (3, 3), (2, 4), (3, 1)]
    s3 = [(2, 2, 2), (3, 2, 2)]
    if tier != 'quick':
        s2 += [(8,), (4, 5)]
        s3 += [(3, 3, 3), (2, 3, 4)]
    cs = [Case(f, shape=s, bloch=b, t=t) for f in (te, tm) for s in s2 for b, t in (('', True), ('xyz'[:len(s)] if min(s) > 1 else 'x', False))]
    cs += [Case(vector, shape=s, t=t) for s in s3 for t in (False, True)] + [Case(vector, shape=(2, 2, 2), bloch='xz', nra_ms=60000)]
    cs += [Case(f, shape=(10,), pml='sym') for f in (te, tm)] + [Case(f, shape=(10, 11), pml='fixed', t=t) for f in (te, tm) for t in (False, True)]
    cs += [Case(f, shape=(2, 3), real=True) for f in (te, tm)] + [Case(vector, shape=(2, 2, 2), real=True)]
    return cs
