"""In-situ gradients: the optically measured gradient is the derivative of the mesh output, for every field, cotangent and setting."""
from symx.harness import Case
from .meshlib import *


def shifted(I, p, which, k, d):
    q = [I.arr(list(a)) for a in p]
    q[which][k] = q[which][k] + d
    return tuple(q)


def gradient(I, arch, n, style, analog, batch, errors, dark=''):
    """the hand-written backward rule at the cotangent g = conj(M) a, a any vector of nonzero entries (M: the lossless mesh)"""
    mesh = make(arch, n, style)
    p = sym_params(I, mesh)
    err, loss = sym_errors(I, mesh, errors), np.zeros((mesh.num_nodes, 2))
    out = mesh.matrix_fn()
    m = out(p, np.eye(mesh.n) + 0j, err, loss)
    shape = (mesh.n,) if batch == 0 else (mesh.n, batch)
    x, a = I.polars('x', *shape), I.polars('a', mesh.n, max(batch, 1))
    # without light, or when the cost does not depend on the output, the gradient vanishes
    if 'x' in dark:
        x = x * 0
    if 'g' in dark:
        a = a * 0
    g = m.conj() @ a
    f = mesh.in_situ_matrix_fn(all_analog=analog)
    xj, pj, ej, lj, gj = I.jarr(x), tuple(map(I.jarr, p)), I.jarr(err), I.jarr(loss), I.jarr(g)
    (gt, gp, gg), gx = _bwd(f, (pj, xj, ej, lj), gj)
    # cotangent of the inputs: the transpose of the (linear) map
    I.eq(gx.reshape(mesh.n, -1), m.T @ g, 'cotangent of the inputs')
    for which, (got, cnt, nm) in enumerate(((gt, mesh.num_nodes, 'theta'), (gp, mesh.num_nodes, 'phi'), (gg, mesh.n, 'gamma'))):
        for k in range(cnt):
            # the output is A + B exp(i t) in each phase t: its derivative is the difference of the outputs at t +- pi/2, halved
            dp = out(shifted(I, p, which, k, np.pi / 2), x.copy(), err, loss)
            dm = out(shifted(I, p, which, k, -np.pi / 2), x.copy(), err, loss)
            want = (g.reshape(-1) * ((dp - dm) / 2).reshape(-1)).sum()
            I.eq(got[k], want.real, 'gradient of ' + nm)


def forward(I, n, style):
    """without noise the measured forward pass is the matrix applied to the inputs"""
    mesh = make('tree', n, style)
    p = sym_params(I, mesh)
    err, loss = sym_errors(I, mesh), np.zeros((mesh.num_nodes, 2))
    m = mesh.matrix_fn()(p, np.eye(mesh.n) + 0j, err, loss)
    a = I.polars('a', mesh.n)
    x = m.conj().T @ a
    f = mesh.in_situ_matrix_fn()
    I.eq(f(p, x, err, loss).reshape(-1), a, 'in-situ forward pass equals the matrix')


def _bwd(f, res, g):
    r = f.bwd(res, g)
    return r[0], r[1]


def cases(tier):
    cs = []
    for a, n in [('tree', 2), ('tree', 3), ('chain', 3), ('rect', 3)] + ([('tree', 4)] if tier != 'quick' else []):
        for s in ('top', 'bottom'):
            for an in (True, False):
                cs.append(Case(gradient, arch=a, n=n, style=s, analog=an, batch=0, errors=n < 3))
                if n == 2:
                    cs.append(Case(gradient, arch=a, n=n, style=s, analog=an, batch=1, errors=True))
                    cs.append(Case(gradient, arch=a, n=n, style=s, analog=an, batch=2, errors=False))
    for dark in ('x', 'g', 'xg'):
        for an in (True, False):
            cs.append(Case(gradient, arch='tree', n=2, style='top', analog=an, batch=0, errors=False, dark=dark))
    for s in STYLES:
        cs.append(Case(forward, n=2, style=s))
    return cs
