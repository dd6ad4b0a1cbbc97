"""Normalized error: a scale- and phase-invariant distance to the target unitary, between 0 and 1, the same in NumPy and JAX."""
from symx.harness import Case
from .meshlib import *

ORD = {2: ['D', (0, 1)], 3: ['D', (0, 1), (1, 2), (0, 2)]}


def formula(I, n, use_jax):
    from simphox.utils import normalized_error
    u = unitary(I, n, ORD[n])
    a = I.cplxs('a', n, n)
    t = I.np.trace(a)
    f2 = (I.np.abs(a) ** 2).sum()
    I.assume(f2 > 0.01)
    uhat = u @ a
    e = normalized_error(I.jarr(u) if use_jax else u, use_jax=use_jax)(I.jarr(uhat) if use_jax else uhat)
    want = 1 - (t.real ** 2 + t.imag ** 2) / (n * f2)
    # |tr a|^2 <= n |a|^2 for every matrix, so that the error is a number between 0 and 1
    I.le(t.real ** 2 + t.imag ** 2, n * f2, 'overlap is at most one (Cauchy-Schwarz)')
    I.eq(e ** 2, want, 'squared error is one minus the normalised overlap')


def invariant(I, n):
    """the error does not see a common factor (loss and global phase) of the implemented matrix"""
    from simphox.utils import normalized_error
    u, a, c = unitary(I, n, ORD[n]), I.cplxs('a', n, n), I.polar('c')
    I.assume((I.np.abs(a) ** 2).sum() > 0.01)
    e = normalized_error(u)
    I.eq(e(c * (u @ a)) ** 2, e(u @ a) ** 2, 'a common factor changes nothing')


def cases(tier):
    cs = []
    for n in (2, 3):
        for j in (False, True):
            cs.append(Case(formula, n=n, use_jax=j))
        cs.append(Case(invariant, n=n))
    return cs
