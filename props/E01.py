"""The derivative operators of a Yee grid are the (Bloch-)periodic finite differences, in matrix and in functional form."""
from symx.harness import Case
from .gridlib import *

FUNCTIONS = ['grid.Grid.__init__', 'grid.YeeGrid.__init__', 'grid.YeeGrid.deriv', 'grid.YeeGrid.deriv_forward', 'grid.YeeGrid.deriv_backward', 'grid.YeeGrid.diff_fn', 'grid.YeeGrid.curl_fn', 'utils.curl_fn', 'utils.d2curl_op']


def grid(I, shape, bloch, cls=None):
    from simphox.grid import YeeGrid
    sp = spacings(I, shape)
    ph = phases(I, shape, bloch)
    g = YeeGrid(sizes(sp, shape), sp, bloch_phase=ph if bloch else 0.0)
    n3 = shape3(shape)
    sp3 = tuple(sp) + (1,) * (3 - len(shape))
    ph3 = tuple(ph) + (None,) * (3 - len(shape)) if bloch else None
    return g, n3, sp3, ph3


def matrices(I, shape, bloch):
    g, n3, sp3, ph3 = grid(I, shape, bloch)
    F, B = ops(I, n3, sp3, ph3)
    f = I.cplxs('f', *n3)
    fw, bw = g.deriv_forward, g.deriv_backward
    for a in range(3):
        I.eq((fw[a] @ f.flatten()).reshape(n3), F(f, a), f'forward derivative along {"xyz"[a]}')
        I.eq((bw[a] @ f.flatten()).reshape(n3), B(f, a), f'backward derivative along {"xyz"[a]}')


def adjoint(I, shape, bloch):
    """summation by parts: each backward derivative is minus the adjoint of the forward one"""
    g, n3, sp3, ph3 = grid(I, shape, bloch)
    fw, bw = g.deriv_forward, g.deriv_backward
    for a in range(3):
        I.eq(bw[a].toarray(), -fw[a].toarray().conj().T, f'backward is minus the adjoint of forward along {"xyz"[a]}')


def functional(I, shape, bloch, use_jax):
    g, n3, sp3, ph3 = grid(I, shape, bloch)
    F, B = ops(I, n3, sp3, ph3)
    f = I.cplxs('f', 3, *n3)
    fj = I.jarr(f) if use_jax else f
    I.eq(g.curl_fn(use_jax=use_jax)(fj), curl(I, F, f), 'curl of the electric field')
    I.eq(g.curl_fn(of_h=True, use_jax=use_jax)(fj), curl(I, B, f), 'curl of the magnetic field')
    df, db = g.diff_fn(use_jax=use_jax), g.diff_fn(of_h=True, use_jax=use_jax)
    for a in range(len(shape)):
        I.eq(df(fj[0], a), F(f[0], a), 'functional forward derivative')
        I.eq(db(fj[0], a), B(f[0], a), 'functional backward derivative')


def propagating(I, shape, bloch):
    """fields that vary as exp(-i beta z) along the third axis of a cross section"""
    g, n3, sp3, ph3 = grid(I, shape, bloch)
    F, B = ops(I, n3, sp3, ph3)
    f, b = I.cplxs('f', 3, *n3), I.real('beta')
    for h, D in ((False, F), (True, B)):
        d = lambda x, a, D=D: -1j * b * x if a == 2 else D(x, a)
        I.eq(g.curl_fn(beta=b, of_h=h)(f), curl(I, d, f), 'curl with a propagation constant')


def exact(I, shape, bloch):
    """curl of a gradient and divergence of a curl vanish, and the operator of Maxwell's equations matches the functional curls"""
    from simphox.utils import d2curl_op
    g, n3, sp3, ph3 = grid(I, shape, bloch)
    f, v = I.cplxs('f', *n3).flatten(), I.cplxs('v', 3, *n3)
    n = f.size
    for d, h, nm in ((g.deriv_forward, False, 'forward'), (g.deriv_backward, True, 'backward')):
        c = d2curl_op(d)
        grad = I.np.hstack([d[a] @ f for a in range(3)])
        I.eq(c @ grad, I.np.zeros(3 * n), 'curl of a gradient, ' + nm)
        cv = c @ v.flatten()
        I.eq(sum(d[a] @ cv[a * n:(a + 1) * n] for a in range(3)), I.np.zeros(n), 'divergence of a curl, ' + nm)
        I.eq(cv.reshape((3,) + n3), g.curl_fn(of_h=h)(v), 'matrix and functional curl, ' + nm)


def cases(tier):
    shapes = [(2,), (3,), (5,), (2, 2), (3, 2), (2, 3), (4, 3), (3, 1), (1, 3), (2, 3, 2), (3, 2, 2), (2, 2, 3)]
    if tier != 'quick':
        shapes += [(8,), (5, 4), (1, 1, 4), (3, 3, 3), (4, 3, 3), (2, 5, 3)]
    cs = []
    for s in shapes:
        for b in (False, True):
            cs += [Case(matrices, shape=s, bloch=b), Case(adjoint, shape=s, bloch=b), Case(exact, shape=s, bloch=b)]
            cs += [Case(functional, shape=s, bloch=b, use_jax=j) for j in (False, True)]
            if len(s) < 3:
                cs.append(Case(propagating, shape=s, bloch=b))
    return cs
