"""Hessian of a vector unit: the closed form equals the exact second derivative of the error, for every vector."""
from symx.harness import Case
from .C12 import drawing
from .meshlib import *


def hessian(I, n, balanced, pattern=0):
    from simphox.circuit.vector import hessian_vector_unit, balanced_tree, unbalanced_tree
    v = I.polars('v', n)
    nrm = I.np.linalg.norm(v)
    h = hessian_vector_unit(v.copy(), balanced)
    w = v / nrm
    mesh = (balanced_tree if balanced else unbalanced_tree)(w)
    th, ph, ga = mesh.params
    m = n - 1

    def err(d):
        p = (th + I.arr(d[:m]), ph + I.arr(d[m:]), ga)
        return 2 - 2 * mesh.matrix_fn()(p, w.conj())[-1].reshape(-1)[0].real

    # the output is A + B exp(i t) in every phase: each derivative is the half difference of the values at t +- pi/2
    for i in range(2 * m):
        for j in range(i + 1):
            tot = 0
            for si in (1, -1):
                for sj in (1, -1):
                    d = np.zeros(2 * m)
                    d[i] += si * np.pi / 2
                    d[j] += sj * np.pi / 2
                    tot = tot + si * sj * err(d)
            I.eq(h[i, j], tot / 4, 'second derivative')
            I.eq(h[j, i], h[i, j], 'symmetric')


def distribution(I, n, balanced, samples=1, bar=False):
    """the Hessians of a distribution are those of complex vectors of norm one, one for each sample"""
    import simphox.circuit.vector as vec
    drawn, shown, used = [], [], []

    def randn(*shape):
        drawn.append(1)
        return I.poss(f'z{len(drawn)}', *shape, lo=0.1, hi=3.0)

    def unit(v, *a, **kw):
        used.append((v, fn(v.copy(), *a, **kw)))
        return used[-1][1]
    fn = vec.hessian_vector_unit
    vec.hessian_vector_unit = unit
    try:
        with drawing(I, randn):
            h = vec.hessian_distribution(n, balanced, samples, **(dict(pbar=lambda it: shown.append(1) or it) if bar else {}))
    finally:
        vec.hessian_vector_unit = fn
    I.true(h.shape == (samples, 2 * n - 2, 2 * n - 2), 'a Hessian for each sample')
    I.true(len(used) == samples and bool(shown) == bar, 'each sample is drawn once')
    for k, (v, g) in enumerate(used):
        I.true(v.shape == (n,), 'size of the sample')
        I.eq(I.np.sum(I.np.abs(v) ** 2), 1, 'norm of the sample')
        I.eq(h[k], g, 'Hessian of the sample')


def cases(tier):
    cs = []
    for n in (2, 3, 4, 5) + ((6,) if tier == "thorough" else ()):
        for b in (True, False):
            cs.append(Case(hessian, n=n, balanced=b))
    cs += [Case(distribution, n=n, balanced=b, samples=k, bar=k == 2) for n, k in ((2, 1), (2, 2), (3, 1)) for b in (True, False)]
    return cs
