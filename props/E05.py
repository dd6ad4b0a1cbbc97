"""The hand-written backward rules of the differentiable solver are the exact adjoints of what they differentiate.

The solution x and the adjoint solution are chosen freely and the systems are built from them (contract of the linear solver); the
bilinear identity (cotangents . perturbations = output cotangent . perturbed solution) then has to hold for all perturbations."""
from symx.harness import Case
from symx.nd import SA, plain
from .E03 import run
from .E02 import pml_eps
from .gridlib import *

FUNCTIONS = ['primitives.spsolve', 'primitives.spsolve_fwd', 'primitives.spsolve_bwd', 'primitives._spsolve_hcb', 'primitives.TMOperator.__init__', 'primitives.TMOperator.compile_operator_along_axis']

PATTERNS = {
    # rows, columns of the entries; repeated positions add up
    'dense2': ([0, 0, 1, 1], [0, 1, 0, 1]),
    'repeated': ([0, 1, 2, 0, 1, 2, 0, 1, 2], [0, 1, 2, 0, 1, 2, 1, 2, 0]),
    'cyclic': ([0, 1, 2, 3, 0, 1, 2, 3], [0, 1, 2, 3, 1, 2, 3, 0]),
    'triangle': ([2, 0, 1, 2, 1], [2, 0, 1, 0, 0]),
}


def vjp(I, f, args, g):
    """the library's own backward rule: symbolically called directly, on the replay through JAX"""
    if I.sym:
        out, res = f.fwd(*[I.jarr(a) if not isinstance(a, np.ndarray) or a.dtype == object else a for a in args])
        return out, f.bwd(res, I.jarr(g))
    import jax
    import jax.numpy as jnp
    out, back = jax.vjp(lambda *x: f(*x, *args[len(x):]), *[jnp.array(a) for a in args if a.dtype.kind in 'fc'])
    return np.asarray(out), back(jnp.array(g))


def spsolve(I, pattern):
    from simphox.primitives import spsolve as f
    i, j = (np.array(x) for x in PATTERNS[pattern])
    n = max(i) + 1
    new = I.cplxs
    a, da = new('a', len(i)), new('da', len(i))
    x, dx, lam = new('x', n), new('dx', n), new('l', n)

    def times(v, y, i=i, j=j):
        out = [0] * n
        for k in range(len(i)):
            out[i[k]] = out[i[k]] + v[k] * y[j[k]]
        return I.arr(np.array(out, dtype=object if I.sym else None))

    b, g = times(a, x), times(a, lam, j, i)
    db = times(da, x) + times(a, dx)
    if not I.sym:
        # the system has to be regular for the solution to be determined
        A = np.zeros((n, n), dtype=complex)
        np.add.at(A, (i, j), a)
        if np.linalg.cond(A) > 1e6:
            from symx.harness import BadPoint
            raise BadPoint('singular')
    from symx.sparse import solving
    import contextlib
    with (solving(x, lam, I=None) if I.sym else contextlib.nullcontext()):
        out, bar = vjp(I, f, (a, b, np.stack((i, j))), g)
    bar = [plain(v).view(SA) if I.sym else np.asarray(v) for v in bar[:2]]
    I.eq(plain(out).view(SA) if I.sym else out, x, 'solution')
    I.eq((bar[0] * da).sum() + (bar[1] * db).sum(), (g * dx).sum(), 'cotangents of entries and right-hand side')
    I.eq(bar[1], lam, 'adjoint solution')


def operator(I, shape, axis, bloch='', pml=False):
    from simphox.primitives import TMOperator
    from simphox.fdfd import FDFD
    if pml:
        g = FDFD(tuple(0.25 * n for n in shape), 0.25, wavelength=1.55, pml=tuple(1.0 for _ in shape), pml_sep=1)
    else:
        sp, ph = spacings(I, shape), phases(I, shape, bloch)
        g = FDFD(sizes(sp, shape), sp, bloch_phase=ph if bloch else 0.0)
    op = TMOperator(g.deriv_forward, g.deriv_backward)
    te = op.compile_operator_along_axis(axis)
    n = int(np.prod(shape))
    t = I.poss('t', n, lo=0.1, hi=4.0) if not pml else pml_eps(I, shape).flatten()
    dt = I.reals('dt', n)
    c = plain(te(I.jarr(t))).view(SA) if I.sym else np.asarray(te(t))
    idx = np.asarray((op.x_indices, op.y_indices)[axis]).astype(int)
    # the entries at the advertised positions make up  d_backward diag(t) d_forward
    M = g.deriv_backward[axis].toarray() @ (t.reshape(-1, 1) * g.deriv_forward[axis].toarray())
    I.eq(c, I.arr(np.array([M[p, q] for p, q in zip(*idx)], dtype=object if I.sym else None)), 'entries of the operator')
    rest = M.copy()
    for p, q in zip(*idx):
        rest[p, q] = 0
    I.eq(rest, rest * 0, 'no entry elsewhere')
    # bilinear identity: the map is linear in t
    gg = I.cplxs('g', len(idx[0]))
    dc = plain(te(I.jarr(dt))).view(SA) if I.sym else np.asarray(te(dt))
    _, bar = vjp(I, te, (t,), gg)
    b = plain(bar[0]).view(SA) if I.sym else np.asarray(bar[0])
    I.eq((b * dt).sum(), I.np.real((gg * dc).sum()), 'cotangent of the permittivity')


def cases(tier):
    cs = [Case(spsolve, pattern=p) for p in PATTERNS]
    s2 = [(3, 3), (3, 4), (4, 2)] + ([(5, 5), (6, 3)] if tier != 'quick' else [])
    cs += [Case(operator, shape=s, axis=a, bloch=b) for s in s2 for a in (0, 1) for b in ('', 'xy')] + [Case(operator, shape=(4,), axis=0), Case(operator, shape=(5, 1), axis=0)]
    cs += [Case(operator, shape=(10, 11), axis=a, pml=True) for a in (0, 1)]
    return cs
