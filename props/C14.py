"""Dirichlet matrix of a vector: unitary, and it routes the vector (up to conjugation) to the last port."""
from symx.harness import Case
from .meshlib import *


def dirichlet(I, n, embed):
    from simphox.circuit.matrix import dirichlet_matrix
    v = I.polars('v', n)
    u = dirichlet_matrix(v, embed)
    k = embed or n
    I.eq(u @ u.conj().T, np.eye(k), 'unitary')
    w = I.np.zeros(k, dtype=complex)
    w[:n] = v
    out = u.T @ w
    nrm = I.np.linalg.norm(v)
    for i in range(k):
        I.eq(out[i], nrm if i == n - 1 else 0, 'all power leaves one port')


def cases(tier):
    return [Case(dirichlet, n=n, embed=e) for n, e in ((2, None), (3, None), (4, None), (2, 4), (3, 4))]
