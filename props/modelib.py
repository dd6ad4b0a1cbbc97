"""Cross-section modes with the eigensolver replaced by arbitrary eigenpairs (symbolically and on the replay)."""
import contextlib

from symx.sparse import eigensolving
from .gridlib import *


@contextlib.contextmanager
def eigenpairs(I, fn):
    """the eigensolver returns fn(matrix, k, sigma)"""
    if I.sym:
        with eigensolving(fn):
            yield
    else:
        import simphox.mode as m
        old = m.eigs
        m.eigs = lambda A, k=6, sigma=None, **kw: fn(A, k, sigma)
        try:
            yield
        finally:
            m.eigs = old


class Pairs:
    """arbitrary eigenpairs, new ones for every matrix handed to the solver; calls are recorded"""
    def __init__(self, I, sign='+', order=None, tag=''):
        self.I, self.sign, self.order, self.tag, self.calls = I, sign, order, tag, []

    def __call__(self, A, k, sigma):
        I = self.I
        t = f'{self.tag}{len(self.calls)}'
        n = A.shape[0]
        vals = []
        for i in range(k):
            s = self.sign[i % len(self.sign)]
            if s == '+':
                vals.append(I.pos(f'lam{t}_{i}', 0.05, 300.0))
            elif s == '-':
                vals.append(-I.pos(f'lam{t}_{i}', 0.05, 300.0))
            else:
                x = I.real(f'lam{t}_{i}')
                I.assume(abs(x) > 0.05)
                vals.append(x)
        if self.order:
            for i, j in zip(self.order, self.order[1:]):
                I.assume(vals[i] - vals[j] > 1e-2)
        vecs = I.cplxs(f'v{t}', n, k)
        self.calls.append(dict(A=A, k=k, sigma=sigma, vals=list(vals), vecs=vecs.copy()))
        return pair(I, vals, vecs)


def pair(I, vals, vecs):
    if I.sym:
        v = np.empty(len(vals), dtype=object)
        v[:] = vals
        return I.arr(v), vecs.copy()
    return np.array(vals, dtype=complex), vecs.copy()


class LineModes:
    """modes of lines of n cells, the same for every solve of a line of that length and wavelength: beta > 0 decreasing, profile
    with positive first component (the phase the code chooses), one complex and real ones; the eigenvalues come in increasing order"""
    def __init__(self, I):
        self.I, self.known, self.calls = I, {}, []

    def line(self, n, k, key=''):
        for m in range(k):
            if (n, m, key) in self.known:
                continue
            I = self.I
            name = f'{n}{key}_{m}'
            beta = I.pos('b' + name, 0.3, 12.0)
            if m:
                I.assume(self.known[n, m - 1, key][0] - beta > 1e-2)
            v = [I.pos(f'v{name}_0', 0.2, 2.0)] + [I.cplx(f'v{name}_{i}') if i == 1 else I.real(f'v{name}_{i}') for i in range(1, n)]
            self.known[n, m, key] = beta, I.arr(np.array(v, dtype=object if I.sym else complex))
        return [self.known[n, m, key] for m in range(k)]

    def key(self, A):
        return ''

    def __call__(self, A, k, sigma):
        n = A.shape[0]
        self.calls.append(A)
        ms = self.line(n, k, self.key(A))[::-1]
        return pair(self.I, [b ** 2 for b, _ in ms], self.I.np.stack([v for _, v in ms], axis=1))
