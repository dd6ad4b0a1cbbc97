"""Symbolic stand-ins for scipy.sparse and the linear solvers / eigensolvers behind it.

A matrix that holds a symbolic entry is a row list of dictionaries (column -> entry); everything else stays a real scipy matrix.
Solvers are modelled by their contract: see `solving` and `eigensolving`.
"""
import contextlib
import types

import numpy as np
import scipy.sparse as rsp

from . import core as C
from .core import S, lift, Unsupported
from . import nd
from .nd import SA, NP, tosym, plain, _iszero, contains_sym


def _n(x):
    """one scalar entry"""
    if isinstance(x, np.generic):
        x = x.item()
    return nd._lift_num(x) if isinstance(x, (float, complex)) else x


class _Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (SymMat, rsp.spmatrix)) or (cls is not SpMatrix and isinstance(x, rsp.sparray))


class SpMatrix(metaclass=_Meta):
    pass


class SymMat:
    __array_ufunc__ = None
    __array_priority__ = 1000
    ndim = 2
    has_sorted_indices = True
    has_canonical_format = True

    def __init__(self, shape, rows=None, fmt='csr'):
        self.shape = tuple(int(x) for x in shape)
        self.rows = rows if rows is not None else [{} for _ in range(self.shape[0])]
        self.format = fmt
        self.dtype = np.dtype(np.complex128)

    # --- construction
    @staticmethod
    def of(a):
        if isinstance(a, SymMat):
            return a
        if rsp.issparse(a):
            a = a.tocoo()
            m = SymMat(a.shape)
            for i, j, v in zip(a.row.tolist(), a.col.tolist(), a.data.tolist()):
                m.add_at(i, j, _n(v))
            return m
        a = plain(tosym(a))
        if a.ndim == 0:
            a = a.reshape(1, 1)
        if a.ndim == 1:
            a = a.reshape(1, -1)
        m = SymMat(a.shape)
        for i in range(a.shape[0]):
            for j in range(a.shape[1]):
                if not _iszero(a[i, j]):
                    m.rows[i][j] = a[i, j]
        return m

    def add_at(self, i, j, v):
        r = self.rows[i]
        r[j] = r[j] + v if j in r else v

    def _pruned(self):
        """sums and products of scipy matrices do not keep entries that come out as zero"""
        for r in self.rows:
            for j in [j for j, v in r.items() if _iszero(v)]:
                del r[j]
        return self

    # --- shape and format
    def items(self):
        for i, r in enumerate(self.rows):
            for j in sorted(r):
                yield i, j, r[j]

    @property
    def nnz(self):
        return sum(len(r) for r in self.rows)

    def getnnz(self, *a):
        return self.nnz

    @property
    def row(self):
        return np.array([i for i, _, _ in self.items()], dtype=np.int32)

    @property
    def col(self):
        return np.array([j for _, j, _ in self.items()], dtype=np.int32)

    indices = col

    @property
    def indptr(self):
        return np.concatenate(([0], np.cumsum([len(r) for r in self.rows]))).astype(np.int32)

    @property
    def data(self):
        v = [x for _, _, x in self.items()]
        o = np.empty(len(v), dtype=object)
        for k, x in enumerate(v):
            o[k] = x
        return o.view(SA)

    @data.setter
    def data(self, v):
        v = plain(tosym(v))
        for k, (i, j, _) in enumerate(list(self.items())):
            self.rows[i][j] = v[k]

    def tocsr(self, *a, **k):
        return self

    tocoo = tocsc = todia = tolil = asformat = tobsr = tocsr

    def sort_indices(self):
        pass

    def sum_duplicates(self):
        pass

    def eliminate_zeros(self):
        self._pruned()

    def sorted_indices(self):
        return self

    def astype(self, dt, **k):
        return self

    def copy(self):
        return SymMat(self.shape, [dict(r) for r in self.rows], self.format)

    def toarray(self, *a, **k):
        o = np.empty(self.shape, dtype=object)
        o[...] = 0.0
        for i, j, v in self.items():
            o[i, j] = v
        return o.view(SA)

    todense = toarray

    @property
    def A(self):
        return self.toarray()

    def diagonal(self, k=0):
        n = min(self.shape[0] - max(0, -k), self.shape[1] - max(0, k))
        o = np.empty(max(n, 0), dtype=object)
        for i in range(max(n, 0)):
            o[i] = self.rows[i + max(0, -k)].get(i + max(0, k), 0.0)
        return o.view(SA)

    def transpose(self, *a, **k):
        m = SymMat(self.shape[::-1])
        for i, j, v in self.items():
            m.rows[j][i] = v
        return m

    @property
    def T(self):
        return self.transpose()

    def conj(self, *a, **k):
        return self._map(lambda v: v.conj() if isinstance(v, S) else (v.conjugate() if isinstance(v, complex) else v))

    conjugate = conj

    def getH(self):
        return self.T.conj()

    @property
    def H(self):
        return self.getH()

    @property
    def real(self):
        return self._map(lambda v: lift(v).real)

    @property
    def imag(self):
        return self._map(lambda v: lift(v).imag)

    def _map(self, f):
        return SymMat(self.shape, [{j: f(v) for j, v in r.items()} for r in self.rows])

    # --- arithmetic
    def __neg__(self):
        return self._map(lambda v: -v)

    def _bin(self, o, sg):
        if not isinstance(o, SymMat) and not rsp.issparse(o):
            if np.ndim(o) == 0:
                if _iszero(_n(o)):
                    return self
                raise NotImplementedError('adding a nonzero scalar to a sparse array is not supported')
            return self.toarray() + (o if sg > 0 else -tosym(o))
        o = SymMat.of(o)
        if self.shape != o.shape:
            raise ValueError('inconsistent shapes')
        m = self.copy()
        for i, j, v in o.items():
            m.add_at(i, j, v if sg > 0 else -v)
        return m._pruned()

    def __add__(self, o):
        return self._bin(o, 1)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, -1)

    def __rsub__(self, o):
        return (-self) + o

    def __truediv__(self, o):
        if np.ndim(o) == 0 and not isinstance(o, SymMat):
            o = _n(o[()] if isinstance(o, np.ndarray) else o)
            return self._map(lambda v: v / o)
        return self.toarray() / o

    def scale(self, o):
        return self._map(lambda v: v * o)

    def __mul__(self, o):
        if isinstance(o, SymMat) or rsp.issparse(o):
            return self.dot(o)
        if np.ndim(o) == 0:
            return self.scale(_n(o[()] if isinstance(o, np.ndarray) else o))
        return self.dot(o)

    def __rmul__(self, o):
        if isinstance(o, SymMat) or rsp.issparse(o):
            return SymMat.of(o).dot(self)
        if np.ndim(o) == 0:
            return self.scale(_n(o[()] if isinstance(o, np.ndarray) else o))
        return self.__rmatmul__(o)

    def multiply(self, o):
        if np.ndim(o) == 0 and not isinstance(o, SymMat):
            return self.scale(_n(o))
        d = o.toarray() if isinstance(o, SymMat) or rsp.issparse(o) else o
        d = np.broadcast_to(plain(tosym(d)), self.shape)
        return SymMat(self.shape, [{j: v * d[i, j] for j, v in r.items()} for i, r in enumerate(self.rows)])

    def power(self, n):
        return self._map(lambda v: v ** n)

    def dot(self, o):
        if isinstance(o, SymMat) or rsp.issparse(o):
            o = SymMat.of(o)
            if self.shape[1] != o.shape[0]:
                raise ValueError('dimension mismatch')
            m = SymMat((self.shape[0], o.shape[1]))
            for i, r in enumerate(self.rows):
                for k in sorted(r):
                    x = r[k]
                    for j, y in o.rows[k].items():
                        m.add_at(i, j, x * y)
            return m._pruned()
        v = plain(tosym(o))
        if v.ndim == 0:
            raise ValueError('Scalar operands are not allowed, use \'*\' instead')
        if v.shape[0] != self.shape[1]:
            raise ValueError('dimension mismatch')
        out = np.empty((self.shape[0],) + v.shape[1:], dtype=object)
        for i, r in enumerate(self.rows):
            for c in np.ndindex(*v.shape[1:]):
                acc = 0.0
                for k in sorted(r):
                    y = v[(k,) + c]
                    if _iszero(y):
                        continue
                    t = r[k] * y
                    acc = t if (not isinstance(acc, (S, nd.JunkT)) and acc == 0) else acc + t
                out[(i,) + c] = acc
        r = out.view(SA)
        from .jx import JA
        return r.view(JA) if isinstance(o, JA) else r

    __matmul__ = dot

    def __rmatmul__(self, o):
        if isinstance(o, SymMat) or rsp.issparse(o):
            return SymMat.of(o).dot(self)
        v = tosym(o)
        if v.ndim == 1:
            return self.T.dot(v)
        return self.T.dot(v.T).T

    def __pow__(self, n):
        m = self
        for _ in range(int(n) - 1):
            m = m.dot(self)
        return m

    def sum(self, axis=None, **k):
        d = self.toarray()
        return d.sum() if axis is None else d.sum(axis=axis, keepdims=True)

    def setdiag(self, v, k=0):
        v = plain(tosym(v))
        n = min(self.shape[0] - max(0, -k), self.shape[1] - max(0, k))
        for i in range(n):
            self.rows[i + max(0, -k)][i + max(0, k)] = v[i] if v.ndim else v[()]

    def __getitem__(self, ix):
        if isinstance(ix, tuple) and all(isinstance(x, (int, np.integer)) for x in ix):
            return self.rows[ix[0]].get(int(ix[1]), 0.0)
        d = self.toarray()[ix]
        return SymMat.of(d) if d.ndim == 2 else d

    def __setitem__(self, ix, v):
        at = np.arange(self.shape[0] * self.shape[1]).reshape(self.shape)[ix]
        if isinstance(v, SymMat) or rsp.issparse(v):
            v = v.toarray()
        v = np.broadcast_to(plain(tosym(v)), at.shape)
        for k, x in zip(np.ravel(at).tolist(), v.ravel() if v.ndim else [v[()]]):
            i, j = divmod(k, self.shape[1])
            if _iszero(x):
                self.rows[i].pop(j, None)
            else:
                self.rows[i][j] = x

    def __str__(self):
        # what a matrix prints is what scipy prints: the entries, elided in the middle when there are many
        it = list(self.items())
        if len(it) > 50:
            it = it[:25] + it[-25:]
        t = nd.TextToken('\n'.join(f'  ({i}, {j})\t{v}' for i, j, v in it))
        t.items = [x for e in it for x in e]
        return t

    def __len__(self):
        raise TypeError('sparse matrix length is ambiguous; use getnnz()')


class LilMat(SymMat):
    """a matrix that is filled entry by entry; a real scipy matrix again, once converted, if nothing symbolic was put into it"""

    def tocsr(self, *a, **k):
        return self._fixed('csr')

    def tocoo(self, *a, **k):
        return self._fixed('coo')

    def tocsc(self, *a, **k):
        return self._fixed('csc')

    def todia(self, *a, **k):
        return self._fixed('dia')

    def tolil(self, *a, **k):
        return self

    todok = tolil

    def asformat(self, fmt=None, *a, **k):
        return self if fmt in (None, 'lil', 'dok') else self._fixed(fmt)

    def copy(self):
        return LilMat(self.shape, [dict(r) for r in self.rows], self.format)

    def _fixed(self, fmt):
        it = list(self.items())
        if any(isinstance(v, (S, nd.JunkT)) and not (isinstance(v, S) and v.is_const()) for _, _, v in it):
            return SymMat(self.shape, [dict(r) for r in self.rows], fmt)
        v = np.array([complex(x.value() if isinstance(x, S) else x) for _, _, x in it])
        v = v.real if not np.any(v.imag) else v
        return rsp.coo_matrix((v, ([i for i, _, _ in it], [j for _, j, _ in it])), shape=self.shape).asformat(fmt)


def _any_sym(*xs):
    def f(x):
        if isinstance(x, SymMat):
            return True
        if isinstance(x, (list, tuple)):
            return any(f(y) for y in x)
        if isinstance(x, np.ndarray) and x.dtype == object:
            return any(isinstance(y, (S, nd.JunkT, SymMat)) for y in x.ravel())
        return isinstance(x, (S, nd.JunkT))
    return any(f(x) for x in xs)


def _plainnum(x):
    """object arrays without a symbolic entry -> numeric ones"""
    if isinstance(x, SA):
        return nd.num(x)
    if isinstance(x, (list, tuple)):
        return type(x)(_plainnum(y) for y in x) if not hasattr(x, '_fields') else x
    return x


def diags(diagonals, offsets=0, shape=None, format=None, dtype=None):
    if not _any_sym(diagonals):
        return rsp.diags(_plainnum(diagonals), offsets, shape, format, dtype)
    if np.ndim(offsets) == 0:
        if not isinstance(diagonals, (list, tuple)) or np.ndim(diagonals[0]) == 0:
            diagonals = [diagonals]
        offsets = [offsets]
    ds = [np.atleast_1d(plain(tosym(d))) for d in diagonals]
    offsets = [int(o) for o in np.ravel(offsets)]
    if len(ds) != len(offsets):
        raise ValueError('Different number of diagonals and offsets.')
    if len(set(offsets)) != len(offsets):
        # scipy.sparse.dia_matrix refuses them: "offset array contains duplicate values"
        raise ValueError('offset array contains duplicate values')
    if shape is None:
        m = len(ds[0]) + abs(offsets[0])
        shape = (m, m)
    m, n = (int(x) for x in shape)
    out = SymMat((m, n), fmt='dia')
    for d, o in zip(ds, offsets):
        ln = min(m + o, n - o, n, m) if True else 0
        ln = min(m - max(0, -o), n - max(0, o))
        if ln < 0:
            raise ValueError(f'Offset {o} (index 0) out of bounds')
        if len(d) != ln and len(d) != 1:
            raise ValueError(f'Diagonal length (index 0: {len(d)} at offset {o}) does not agree with array size ({m}, {n}).')
        for i in range(ln):
            v = d[i] if len(d) > 1 else d[0]
            if not _iszero(v):
                out.add_at(i + max(0, -o), i + max(0, o), v)
    return out


def spdiags(data, diags_, m=None, n=None, format=None):
    if not _any_sym(data):
        return rsp.spdiags(_plainnum(data), diags_, m, n, format)
    if m is None and n is None:
        m = n = len(plain(tosym(data))[0]) if np.ndim(diags_) else plain(tosym(data)).shape[-1]
    elif n is None:
        m, n = m
    data = np.atleast_2d(plain(tosym(data)))
    out = SymMat((m, n), fmt='dia')
    offsets = [int(k) for k in np.ravel(diags_)]
    if len(set(offsets)) != len(offsets):
        raise ValueError('offset array contains duplicate values')
    if len(offsets) != data.shape[0]:
        raise ValueError('number of diagonals does not match the number of offsets')
    for k, d in zip(offsets, data):
        for j in range(max(0, k), min(n, m + k, len(d))):  # entries stand in the column of their index
            if not _iszero(d[j]):
                out.add_at(j - k, j, d[j])
    return out


def kron(a, b, format=None):
    if not _any_sym(a, b):
        return rsp.kron(_plainnum(a), _plainnum(b), format)
    a, b = SymMat.of(a), SymMat.of(b)
    p, q = b.shape
    m = SymMat((a.shape[0] * p, a.shape[1] * q))
    for i, j, x in a.items():
        for k, l, y in b.items():
            m.rows[i * p + k][j * q + l] = x * y
    return m


def bmat(blocks, format=None, dtype=None):
    if not _any_sym(blocks if isinstance(blocks, (list, tuple)) else list(blocks)):
        return rsp.bmat(blocks, format, dtype)
    blocks = [list(r) for r in blocks]
    R, Cn = len(blocks), len(blocks[0])
    hs, ws = [None] * R, [None] * Cn
    for i in range(R):
        for j in range(Cn):
            b = blocks[i][j]
            if b is None:
                continue
            b = blocks[i][j] = SymMat.of(b)
            if hs[i] not in (None, b.shape[0]) or ws[j] not in (None, b.shape[1]):
                raise ValueError('blocks have incompatible dimensions')
            hs[i], ws[j] = b.shape
    m = SymMat((sum(hs), sum(ws)))
    for i in range(R):
        for j in range(Cn):
            if blocks[i][j] is not None:
                for k, l, v in blocks[i][j].items():
                    m.rows[sum(hs[:i]) + k][sum(ws[:j]) + l] = v
    return m


def hstack(blocks, format=None, dtype=None):
    return bmat([list(blocks)], format, dtype)


def vstack(blocks, format=None, dtype=None):
    return bmat([[b] for b in blocks], format, dtype)


def block_diag(mats, format=None, dtype=None):
    if not _any_sym(mats):
        return rsp.block_diag(mats, format, dtype)
    n = len(mats)
    return bmat([[mats[i] if i == j else None for j in range(n)] for i in range(n)])


def triu(a, k=0, format=None):
    if not _any_sym(a):
        return rsp.triu(a, k, format)
    return SymMat(a.shape, [{j: v for j, v in r.items() if j >= i + k} for i, r in enumerate(a.rows)])


def tril(a, k=0, format=None):
    if not _any_sym(a):
        return rsp.tril(a, k, format)
    return SymMat(a.shape, [{j: v for j, v in r.items() if j <= i + k} for i, r in enumerate(a.rows)])


def _ctor(name):
    real = getattr(rsp, name)

    class _M(SpMatrix):
        def __new__(cls, a, shape=None, dtype=None, copy=False):
            if isinstance(a, SymMat) and name[:3] not in ('lil', 'dok'):
                return a.copy() if copy else a
            if isinstance(a, tuple) and len(a) in (2, 3) and not all(isinstance(x, (int, np.integer)) for x in a):
                if not _any_sym(a):
                    a = tuple(_plainnum(tuple(x) if isinstance(x, list) else x) if not isinstance(x, tuple)
                              else tuple(np.asarray(_plainnum(y)) for y in x) for x in a)
                    return real(a, shape=shape, dtype=dtype)
                if name == 'dia_matrix':
                    return spdiags(a[0], a[1], *shape)
                if len(a) == 2:
                    data, (i, j) = a
                    i, j = np.asarray(_plainnum(i)).astype(int), np.asarray(_plainnum(j)).astype(int)
                    shape = shape if shape is not None else (i.max() + 1, j.max() + 1)
                    m = SymMat(shape)
                    for x, r, c in zip(plain(tosym(data)).ravel(), i.ravel(), j.ravel()):
                        if not (0 <= r < m.shape[0] and 0 <= c < m.shape[1]):
                            raise ValueError('row or column index exceeds matrix dimensions')
                        m.add_at(int(r), int(c), x)
                    return m
                data, ind, ptr = a
                ind, ptr = np.asarray(ind).astype(int), np.asarray(ptr).astype(int)
                n = len(ptr) - 1
                shape = shape if shape is not None else (n, int(ind.max()) + 1)
                m = SymMat(shape)
                d = plain(tosym(data))
                for r in range(n):
                    for k in range(ptr[r], ptr[r + 1]):
                        m.add_at(r, int(ind[k]), d[k])
                return m if name != 'csc_matrix' else m.T
            if name in ('lil_matrix', 'dok_matrix'):
                if isinstance(a, LilMat):
                    return a.copy() if copy else a
                a = SymMat.of(a) if not isinstance(a, tuple) else SymMat(a)
                return LilMat(a.shape, [dict(r) for r in a.rows], name[:3])
            if isinstance(a, tuple) and _any_sym(a):
                raise Unsupported('a sparse matrix of symbolic shape')
            if _any_sym(a):
                return SymMat.of(a)
            return real(_plainnum(a), shape=shape, dtype=dtype)
    _M.__name__ = name
    return _M


class SparseFacade(types.ModuleType):
    spmatrix = SpMatrix
    diags, kron, bmat, hstack, vstack, block_diag, triu, tril, spdiags = map(
        staticmethod, (diags, kron, bmat, hstack, vstack, block_diag, triu, tril, spdiags))

    def __init__(self):
        super().__init__('sparse_facade')
        for fmt in ('csr', 'coo', 'csc', 'lil', 'dok', 'dia'):
            setattr(self, fmt + '_matrix', _ctor(fmt + '_matrix'))
        self.linalg = LINALG

    @staticmethod
    def issparse(x):
        return isinstance(x, SymMat) or rsp.issparse(x)

    isspmatrix = issparse

    @staticmethod
    def eye(m, n=None, k=0, dtype=float, format=None):
        return rsp.eye(m, n, k, dtype=float, format=format)

    @staticmethod
    def identity(n, dtype='d', format=None):
        return rsp.identity(n, format=format)

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        if isinstance(getattr(rsp, k), type):
            return getattr(rsp, k)
        raise Unsupported('scipy.sparse.' + k)


# ------------------------------------------------------------------------------------------------ solver contracts
class _Solver:
    candidates = None
    modes = None
    obligation = None
    calls = 0


SOLVER = _Solver()


@contextlib.contextmanager
def solving(*xs, I=None):
    """within, a linear solve returns the one of the given vectors that satisfies the system handed to the solver.

    The harness chooses the solution freely (fresh symbolic unknowns) and builds the right-hand side from it, so that for every
    invertible matrix all right-hand sides are covered; a system that none of them satisfies makes the harness fail, and is replayed
    with the real solver.  With `I` the system A x = b itself becomes an obligation (used where A holds rounded numbers)"""
    old = SOLVER.candidates, SOLVER.obligation, SOLVER.calls
    SOLVER.candidates = [plain(tosym(x)).ravel() for x in xs]
    SOLVER.obligation = I
    SOLVER.calls = 0
    try:
        yield
    finally:
        SOLVER.candidates, SOLVER.obligation, SOLVER.calls = old


def _pick(size, residual, wrap):
    """the candidate that solves the system; residual(x) = (A x, b)"""
    SOLVER.calls += 1
    fit = [x for x in SOLVER.candidates if len(x) == size]
    if SOLVER.obligation is None or len(fit) > 1:
        for x in fit:
            if all((lift(p) - q).is_zero() or C.simp(lift(p) - q).is_zero() for p, q in zip(*residual(x))):
                return wrap(x)
    if SOLVER.obligation is not None and fit:
        x = fit[min(SOLVER.calls, len(fit)) - 1]
        y, b = residual(x)
        y, b = np.array(list(y), dtype=object).view(SA), np.array(list(b), dtype=object).view(SA)
        SOLVER.obligation.eq(y, b, 'system handed to the solver')
        return wrap(x)
    raise WrongSystem('the system handed to the solver does not have the expected solution')


class WrongSystem(Exception):
    pass


def solve(a, b, *args, **k):
    if not _any_sym(a, b) and SOLVER.candidates is None:
        import scipy.sparse.linalg as l
        return l.spsolve(rsp.csr_matrix(a), np.asarray(b))
    if SOLVER.candidates is None:
        raise Unsupported('linear solve outside a contract')
    a = SymMat.of(a)
    from .jx import JA
    rhs = plain(tosym(b)).ravel()
    if a.shape[0] != a.shape[1] or a.shape[0] != len(rhs):
        raise ValueError('dimension mismatch')
    return _pick(a.shape[1], lambda x: (plain(a.dot(x.view(SA))), rhs), lambda x: x.copy().view(JA if isinstance(b, JA) else SA))


@contextlib.contextmanager
def eigensolving(fn):
    """within, the eigensolver called with (matrix, k, sigma) returns fn(matrix, k, sigma)"""
    old = SOLVER.modes
    SOLVER.modes = fn
    try:
        yield
    finally:
        SOLVER.modes = old


def eigs(A, k=6, M=None, sigma=None, which='LM', **kw):
    if SOLVER.modes is not None:
        return SOLVER.modes(A, k, sigma)
    if not _any_sym(A):
        import scipy.sparse.linalg as l
        return l.eigs(A, k=k, sigma=float(sigma) if isinstance(sigma, S) else sigma, **kw)
    raise Unsupported('eigenvalues of a symbolic matrix')


class LinalgFacade(types.ModuleType):
    def __init__(self):
        super().__init__('sparse_linalg_facade')
        self.spsolve, self.eigs = solve, eigs

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported('scipy.sparse.linalg.' + k)


LINALG = LinalgFacade()
SP = SparseFacade()


class _Extra(dict):
    """object id -> stand-in, completed once simphox has been imported"""
    def items(self):
        import sys
        import scipy.sparse.linalg as l
        d = {id(l): LINALG, id(l.spsolve): solve, id(l.eigs): eigs}
        m = sys.modules.get('simphox.mkl')
        if m is not None and hasattr(m, 'spsolve_pardiso'):
            d[id(_ORIG.setdefault('p', m.spsolve_pardiso))] = solve
        from jax.scipy.sparse.linalg import bicgstab
        d[id(bicgstab)] = matfree_solve
        return d.items()


_ORIG = {}


def matfree_solve(op, b, *a, **k):
    """jax.scipy.sparse.linalg.bicgstab: the solution of op(x) = b"""
    if SOLVER.candidates is None:
        raise Unsupported('linear solve outside a contract')
    from .jx import JA
    rhs = tosym(b)
    return _pick(rhs.size, lambda x: (plain(tosym(op(x.reshape(rhs.shape).view(JA)))).ravel(), plain(rhs).ravel()),
                 lambda x: x.reshape(rhs.shape).view(JA)), None


EXTRA = _Extra()


# --- concrete scipy matrices that meet symbolic operands become symbolic matrices
def _symbolic(o):
    return isinstance(o, (SymMat, S, nd.JunkT)) or (isinstance(o, np.ndarray) and o.dtype == object and (isinstance(o, SA) or contains_sym(o)))


def _hook(cls, name, fn):
    real = cls.__dict__.get(name)
    if real is None:
        return

    def wrapped(self, other, *a, **k):
        if _symbolic(other):
            return fn(self, other)
        return real(self, other, *a, **k)
    setattr(cls, name, wrapped)


def _install_hooks():
    from scipy.sparse import _base, _compressed, _csr, _csc, _coo, _dia
    _hook(_base._spbase, '_mul_dispatch', lambda a, o: SymMat.of(a) * o if isinstance(o, (S, nd.JunkT)) else SymMat.of(a).dot(o))
    _hook(_base._spbase, '_rmul_dispatch', lambda a, o: SymMat.of(a) * o if isinstance(o, (S, nd.JunkT)) else SymMat.of(a).__rmatmul__(o))
    _hook(_base._spbase, '__truediv__', lambda a, o: SymMat.of(a) / o)
    for c in (_base._spbase, _compressed._cs_matrix, _coo._coo_base, _dia._dia_base, _csr._csr_base, _csc._csc_base):
        _hook(c, 'multiply', lambda a, o: SymMat.of(a).multiply(o))


_install_hooks()
