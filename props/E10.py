"""The direct solver solves the system it is given, whatever it has factorised before.

The MKL routine behind the class is a stand-in that records which matrix was factorised last and by which matrix it is asked to
solve; hashes are modelled as injective functions of what is hashed.  The replay runs the real routine."""
import contextlib
import ctypes
import sys

import numpy as np

from symx import core as C
from symx import nd
from symx.core import S, SymBool, lift
from symx.harness import Case, unpatched
from symx.nd import SA, plain, tosym
from symx.sparse import SymMat

FUNCTIONS = ['mkl.Pardiso.factor', 'mkl.Pardiso.solve', 'mkl.Pardiso._set_mat', 'mkl.Pardiso.pardiso', 'mkl.Pardiso.free', 'mkl.spsolve_pardiso']


class Hash:
    """an injective hash: equal exactly when what was hashed is equal"""

    def __init__(self, x):
        self.x = x

    def __eq__(self, o):
        if not isinstance(o, Hash):
            return False
        return _same(self.x, o.x)

    def __ne__(self, o):
        r = self == o
        return ~r if isinstance(r, SymBool) else not r

    __hash__ = None


def _same(a, b):
    if isinstance(a, (nd.Token, nd.TextToken)) or isinstance(b, (nd.Token, nd.TextToken)):
        a, b = getattr(a, 'items', None), getattr(b, 'items', None)
        if a is None or b is None or len(a) != len(b):
            return False
        conds = []
        for x, y in zip(a, b):
            if isinstance(x, (S, complex, float, int)) and isinstance(y, (S, complex, float, int)) and (isinstance(x, S) or isinstance(y, S)):
                d = lift(x) - y
                for q in (d.real, d.imag):
                    q = lift(q)
                    if q.is_zero():
                        continue
                    c = (q == 0)
                    if isinstance(c, SymBool):
                        conds.append(c)
                    elif not c:
                        return False
            elif x != y:
                return False
        r = True
        for c in conds:
            r = c if r is True else (r & c)
        return r
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        r = True
        for x, y in zip(a, b):
            s = _same(x, y)
            if s is False:
                return False
            if s is not True:
                r = s if r is True else (r & s)
        return r
    return type(a) == type(b) and a == b


_REAL = {}


class Routine:
    """stand-in for mkl.pardiso"""

    def __init__(self, I, real):
        self.I, self.real, self.factored, self.rhs = I, real, None, None

    def __getattr__(self, k):
        return getattr(self.real, k)

    def pardiso(self, pt, maxfct, mnum, mtype, phase, n, a, ia, ja, perm, nrhs, iparm, msg, rhs, x, err):
        phase, n, nrhs = phase._obj.value, n._obj.value, nrhs._obj.value
        if phase in (0, -1):
            self.factored = None
            return
        ptr = [ia[i] for i in range(n + 1)]
        ind = [ja[i] for i in range(ptr[-1])]
        val = list(plain(a.a))
        m = SymMat((n, n))
        for i in range(n):
            for k in range(ptr[i], ptr[i + 1]):
                m.add_at(i, ind[k], val[k])
        if phase in (11, 12, 13, 22, 23):
            self.factored = m
        if phase in (13, 23, 33):
            self.I.true(self.factored is not None, 'a matrix has been factorised before the solution')
            b = list(plain(rhs.a))
            self.I.eq(self.factored.toarray(), self.expect, 'the factorised matrix is the one of the system')
            self.I.eq(tosym(np.array(b, dtype=object)), self.rhs, 'the right-hand side is the one of the system')
            out = plain(x.a)
            for i, v in enumerate(plain(self.solution).T.ravel() if self.solution.ndim > 1 else plain(self.solution)):
                out[i] = v


def pattern(n, kind):
    if kind == 'tri':
        return [(i, j) for i in range(n) for j in range(n) if abs(i - j) <= 1]
    if kind == 'ring':
        return sorted({(i, (i + d) % n) for i in range(n) for d in (-1, 0, 1)})
    return [(i, j) for i in range(n) for j in range(n) if abs(i - j) in (0, 2)]


def matrix(I, name, n, kind, free, base=None):
    """diagonally dominant matrix with symbolic entries at the positions `free` (indices into the pattern)"""
    import scipy.sparse as rsp
    pat = pattern(n, kind)
    v = []
    for k, (i, j) in enumerate(pat):
        c = (5 + (k % 3) + 0.5j) if i == j else (0.5 + 0.25 * (k % 2))
        v.append(I.real(f'{name}{k}', -1, 1) + c if k in free else c)
    if I.sym:
        m = SymMat((n, n))
        for (i, j), x in zip(pat, v):
            m.rows[i][j] = nd._lift_num(x) if not isinstance(x, S) else x
        return m
    return rsp.csr_matrix((np.array(v, dtype=complex), tuple(np.array(pat).T)), shape=(n, n))


@contextlib.contextmanager
def solver(I):
    from simphox import mkl
    old, oldhash = mkl.mkl, vars(mkl).get('hash')
    if not I.sym:
        mkl.mkl, mkl.hash = _REAL.setdefault('mkl', old), hash
        try:
            yield mkl.Pardiso(), None
        finally:
            mkl.mkl = old
            if oldhash is None:
                del mkl.hash
            else:
                mkl.hash = oldhash
        return
    with unpatched():
        p = mkl.Pardiso()
    r = Routine(I, _REAL.setdefault('mkl', old))
    mkl.mkl, mkl.hash = r, Hash
    try:
        yield p, r
    finally:
        mkl.mkl = old
        del mkl.hash


def history(I, n, steps, kinds=('tri', 'tri'), free='all', nrhs=1):
    """steps: e.g. 'ABA', lower case = factor only, '!' = free"""
    nnz = len(pattern(n, kinds[0]))
    fr = set(range(nnz)) if free == 'all' else set(free)
    mats = {'A': matrix(I, 'a', n, kinds[0], fr), 'B': matrix(I, 'b', n, kinds[1], fr)}
    with solver(I) as (p, r):
        for t, s in enumerate(steps):
            if s == '!':
                p.free()
                continue
            if s == '=':
                # the caller overwrites its matrix A by the entries of B
                mats['A'].data = mats['B'].data if I.sym else mats['B'].data.copy()
                continue
            if s == ':':
                # the caller overwrites the entries of its matrix A in place
                if I.sym:
                    mats['A'].data = mats['B'].data
                else:
                    mats['A'].data[:] = mats['B'].data
                continue
            m = mats[s.upper()]
            if r is not None:
                r.expect = m.toarray()
            if s.islower():
                p.factor(m)
                continue
            x = np.arange(1, n * nrhs + 1) * (1 - 0.5j)
            x = x.reshape(n, nrhs) if nrhs > 1 else x
            x = I.arr(x)
            b = m @ x
            if r is not None:
                r.solution = tosym(x)
                r.rhs = tosym(np.asfortranarray(plain(b)).T.ravel() if nrhs > 1 else plain(b))
            got = p.solve(m, b)
            I.eq(got, x, 'the solution of the system')


def cases(tier):
    cs = [Case(history, n=4, steps=s) for s in ('A', 'AB', 'AA', 'ABA', 'aA', 'aB', 'aAB')]
    cs += [Case(history, n=4, steps='AB', kinds=('tri', 'two'), free=()), Case(history, n=4, steps='AB', kinds=('ring', 'tri'))]
    cs += [Case(history, n=3, steps=s, nrhs=2) for s in ('A', 'AB')] + [Case(history, n=4, steps=s) for s in ('A!A', 'A!B', 'A=A', 'A:A', 'A=AB')]
    # more entries than are shown when a matrix is printed
    cs += [Case(history, n=20, steps='AB', free=(27, 28, 30)), Case(history, n=20, steps='AB'), Case(history, n=20, steps='ABA', free=(0, 28, 57)),
           Case(history, n=24, steps='AB', kinds=('ring', 'ring'))]
    if tier != 'quick':
        cs += [Case(history, n=40, steps='ABA'), Case(history, n=6, steps='AABBA'), Case(history, n=60, steps='AB', timeout=600)]
    return cs
