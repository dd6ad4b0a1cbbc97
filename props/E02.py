"""The matrices of FDFD are the discrete Maxwell operators of the grid, Bloch phase, absorbing layers and averaged permittivity included."""
from symx.harness import Case
from .gridlib import *

FUNCTIONS = ['fdfd.FDFD.__init__', 'fdfd.FDFD.mat', 'fdfd.FDFD.mat_ez', 'fdfd.FDFD.mat_hz', 'fdfd.FDFD.scpml', 'grid.YeeGrid.deriv', 'grid.YeeGrid.eps_t', 'utils.yee_avg', 'utils.d2curl_op']


def avg(I, eps):
    """permittivity where the x, y and z components of the field live (see the documentation of the grid: averaged in the xy plane)"""
    r = lambda p, a: (p + np.roll(p, 1, axis=a)) / 2
    return I.np.stack([r(eps, 1), r(eps, 0), r(r(eps, 0), 1)])


def fdfd(I, shape, bloch=False, cplx=False, pml=0, iso=False):
    from simphox.fdfd import FDFD
    if pml:
        w = I.pos('wavelength', 0.5, 3.0) if pml == 'sym' else 1.55
        eps = pml_eps(I, shape)
        sp = tuple(0.25 for _ in shape)
        g = FDFD(tuple(0.25 * n for n in shape), sp, wavelength=w, eps=eps, pml=tuple(1.0 for _ in shape), pml_sep=1)
        ph = None
    else:
        w = I.pos('wavelength', 0.5, 3.0)
        sp = spacings(I, shape)
        ph = phases(I, shape, bloch)
        eps = eps_of(I, shape, cplx)
        g = FDFD(sizes(sp, shape), sp, wavelength=w, eps=eps, bloch_phase=ph if bloch else 0.0)
    n3 = shape3(shape)
    k0 = 2 * np.pi / w
    if pml:
        s = [g.scpml(a) if n > 1 else (1, 1) for a, n in enumerate(n3)]  # (C)PML profile itself: see E08
        F = lambda f, a: fdiff(I, f, a, n3, 0.25) / along(s[a][0], a)
        B = lambda f, a: bdiff(I, f, a, n3, 0.25) / along(s[a][1], a)
    else:
        F, B = ops(I, n3, tuple(sp) + (1,) * (3 - len(shape)), tuple(ph) + (None,) * (3 - len(shape)) if bloch else None)
    return g, n3, k0, F, B, avg(I, eps.reshape(n3))


def pml_eps(I, shape):
    """any permittivity in some of the pixels (corner, layer, interior), a fixed pattern elsewhere"""
    if len(shape) == 1:
        return eps_of(I, shape)
    eps = I.arr(np.array([[1.0 + (3 * x + 5 * y) % 7 for y in range(shape[1])] for x in range(shape[0])]))
    v = I.poss('eps', 4, lo=0.5, hi=12.0)
    for k, (x, y) in enumerate(((0, 0), (1, 4), (5, 5), (shape[0] - 1, 2))):
        eps[x, y] = v[k]
    return eps


def along(s, a):
    return s if np.ndim(s) == 0 else s.reshape([-1 if i == a else 1 for i in range(3)])


def full(I, **k):
    g, n3, k0, F, B, et = fdfd(I, **k)
    e = I.cplxs('e', 3, *n3)
    I.eq((g.mat @ e.flatten()).reshape(e.shape), curl(I, B, curl(I, F, e)) - k0 ** 2 * et * e, 'curl curl e - k0^2 eps e')


def ez(I, **k):
    g, n3, k0, F, B, et = fdfd(I, **k)
    f = I.cplxs('f', *n3)
    v = I.np.stack([f * 0, f * 0, f])
    # no variation along z: the transverse components of curl curl e vanish, and the z component is the scalar operator
    I.eq((g.mat_ez @ f.flatten()).reshape(n3), curl(I, B, curl(I, F, v))[2] - k0 ** 2 * et[2] * f, 'z component of curl curl e - k0^2 eps e')


def hz(I, **k):
    g, n3, k0, F, B, et = fdfd(I, **k)
    f = I.cplxs('f', *n3)
    v = I.np.stack([f * 0, f * 0, f])
    I.eq((g.mat_hz @ f.flatten()).reshape(n3), curl(I, B, curl(I, F, v) / et)[2] - k0 ** 2 * f, 'z component of curl (1/eps) curl h - k0^2 h')


def symmetric(I, shape, pml):
    """reciprocity: without Bloch phase the operators are symmetric up to the (diagonal) stretching of the cells"""
    g, n3, k0, F, B, et = fdfd(I, shape, pml=pml)
    m = g.mat_ez.toarray()
    n = m.shape[0]
    if not pml:
        I.eq(m, m.T, 'scalar operator is symmetric')
        M = g.mat.toarray()
        I.eq(M, M.T, 'vector operator is symmetric')
    else:
        s = [along(g.scpml(a)[1], a) if n_ > 1 else 1 for a, n_ in enumerate(n3)]
        w = (I.np.ones(n3) * s[0] * s[1] * s[2]).flatten()
        I.eq(w.reshape(-1, 1) * m, (w.reshape(-1, 1) * m).T, 'scalar operator is symmetric in the stretched volume')


def history(I, shape):
    """the operators follow edits of the permittivity"""
    from simphox.fdfd import FDFD
    eps, eps2 = eps_of(I, shape), I.poss('eps2', *shape, lo=0.5, hi=12.0)
    k0 = 2 * np.pi / 1.55
    g = FDFD(tuple(0.5 * n for n in shape), 0.5, eps=eps)
    n3 = shape3(shape)
    n = int(np.prod(shape))
    first = g.mat_ez.diagonal() if len(shape) < 3 else g.mat.diagonal()
    g.eps = eps2
    a = g.mat_ez.diagonal() if len(shape) < 3 else g.mat.diagonal()
    d = avg(I, eps2.reshape(n3)) - avg(I, eps.reshape(n3))
    d = d[2].flatten() if len(shape) < 3 else d.flatten()
    I.eq(a - first, -k0 ** 2 * d, 'assigned permittivity')
    g.eps[(0,) * len(shape)] = 3.0
    e3 = eps2.copy()
    e3[(0,) * len(shape)] = 3.0
    b = g.mat_ez.diagonal() if len(shape) < 3 else g.mat.diagonal()
    d = avg(I, e3.reshape(n3)) - avg(I, eps.reshape(n3))
    d = d[2].flatten() if len(shape) < 3 else d.flatten()
    I.eq(b - first, -k0 ** 2 * d, 'permittivity changed in place')


def cases(tier):
    shapes = [(3,), (4,), (2, 2), (3, 2), (3, 4), (3, 1)]
    s3 = [(2, 3, 2), (3, 2, 2), (1, 2, 3)]
    if tier != 'quick':
        shapes += [(8,), (5, 6)]
        s3 += [(3, 3, 3), (4, 3, 3)]
    cs = []
    for b in (False, True):
        cs += [Case(full, shape=s, bloch=b) for s in shapes + s3]
        cs += [Case(f, shape=s, bloch=b) for s in shapes for f in (ez, hz)]
    cs += [Case(f, shape=(3, 3), cplx=True) for f in (full, ez)] + [Case(hz, shape=s, cplx=True) for s in ((4,), (2, 2))]
    cs += [Case(f, shape=(10,), pml='sym') for f in (full, ez, hz)] + [Case(f, shape=(10, 11), pml='fixed') for f in (ez, hz)]
    cs += [Case(symmetric, shape=s, pml=0) for s in ((4,), (3, 3), (2, 3, 2))] + [Case(symmetric, shape=(10,), pml='sym')]
    cs += [Case(history, shape=s) for s in ((4,), (3, 3), (2, 2, 2))]
    if tier != 'quick':
        cs += [Case(hz, shape=(3, 3), cplx=True, timeout=600)]
        cs += [Case(full, shape=(10, 10), pml='fixed', timeout=600), Case(ez, shape=(14, 10), pml='fixed', timeout=600)]
    return cs
