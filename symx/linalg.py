"""Contracts of dense factorisations (numpy.linalg and scipy.linalg).

svd: a harness names the factorisations it built its matrices from (any decomposition of any matrix is one of them); the
factorisation of another matrix is not known. qr: Gram-Schmidt with, per column, either sign of the diagonal of R (which
LAPACK keeps real), vanishing columns and further columns completed by any unit vector orthogonal to the others."""
import numpy as np
from . import core as C
from .core import CTX, Unsupported, lift
from .nd import FUNCS, NP, tosym, plain, wrap, contains_sym

KNOWN = []      # (matrix, (left, singular values, right), rectangular with full factors or not)
SIGNS = [None]  # harness inputs that choose the signs


def known_svd(inputs, *factors):
    KNOWN[:] = [(plain(tosym((l * d[None, :]) @ r)), (l, d, r)) for l, d, r in factors]
    SIGNS[0] = inputs


def _same(a, b):
    return a.shape == b.shape and all((lift(x) - lift(y)).is_zero() for x, y in zip(a.ravel(), b.ravel()))


def svd(a, full_matrices=True, compute_uv=True, *rest, **k):
    a = plain(tosym(a))
    for m, (l, d, r) in KNOWN:
        if _same(a, m):
            return (tosym(l, copy=True), tosym(d, copy=True), tosym(r, copy=True)) if compute_uv else tosym(d, copy=True)
    if a.shape == (1, 1):   # a number: its magnitude and its phase
        z = lift(a[0, 0])
        m = C.sqrt(_norm2([z]))
        u, one = (lift(1) if _zero(m) else z / m), np.array([[1]], dtype=object)
        d = tosym(np.array([m], dtype=object))
        return (tosym(np.array([[u]], dtype=object)), d, tosym(one)) if compute_uv else d
    raise Unsupported('singular values of a matrix not built from known ones')


def _zero(x):
    x = lift(x)
    if x.is_zero():
        return True
    return False if x.is_const() else not CTX.decide_nonzero(x)


def _unit(q, rows):
    """any unit vector orthogonal to the columns q"""
    if len(q) == rows - 1:
        v = np.empty(rows, dtype=object)
        for i in range(rows):
            sub = np.array([[c[j] for c in q] for j in range(rows) if j != i], dtype=object).reshape(rows - 1, rows - 1)
            v[i] = (-1) ** i * lift(FUNCS[np.linalg.det](tosym(sub)) if rows > 1 else 1).conj()
        return v
    for i in range(rows):
        v = np.array([lift(int(j == i)) for j in range(rows)], dtype=object)
        for c in q:
            v = v - c * lift(c[i]).conj()
        n = C.sqrt(_norm2(v)) if q else lift(1)
        if not _zero(n):
            return v / n
    raise Unsupported('completion of a basis')


def _norm2(v):
    return sum((lift(x) * lift(x).conj() for x in v), lift(0))


def qr(a, overwrite_a=False, lwork=None, mode='full', pivoting=False, check_finite=True):
    if overwrite_a not in (False, True):    # numpy.linalg.qr(a, mode)
        mode, overwrite_a = {'reduced': 'economic', 'complete': 'full'}[overwrite_a], False
    if mode not in ('full', 'economic', 'reduced', 'complete') or pivoting:
        raise Unsupported('qr mode ' + mode)
    a = plain(tosym(a))
    rows, cols = a.shape
    full = mode in ('full', 'complete')
    q, r = [], np.empty((rows, cols), dtype=object)
    r[...] = lift(0)
    for j in range(cols):
        v = a[:, j]
        for i, c in enumerate(q):
            r[i, j] = sum((lift(x).conj() * lift(y) for x, y in zip(c, v)), lift(0))
        for i, c in enumerate(q):
            v = v - c * r[i, j]
        if j >= rows:
            continue
        n = C.sqrt(_norm2(v))
        if _zero(n):
            q.append(_unit(q, rows))
            continue
        s = 1 if SIGNS[0] is None else SIGNS[0].choice(f'qr_sign{j}', [1, -1])
        q.append(v / n * s)
        r[j, j] = n * s
    if full:
        while len(q) < rows:
            q.append(_unit(q, rows))
    m = len(q)
    return tosym(np.array(q, dtype=object).T), tosym(r[:m])


def block_diag(*arrs):
    arrs = [plain(np.atleast_2d(tosym(a))) if np.ndim(a) < 2 else plain(tosym(a)) for a in arrs]
    out = np.empty((sum(a.shape[0] for a in arrs), sum(a.shape[1] for a in arrs)), dtype=object)
    out[...] = 0
    i = j = 0
    for a in arrs:
        out[i:i + a.shape[0], j:j + a.shape[1]] = a
        i, j = i + a.shape[0], j + a.shape[1]
    return wrap(out)


def _either(sym, real):
    def f(*a, **k):
        return sym(*a, **k) if contains_sym((a, tuple(k.values()))) else real(*a, **k)
    f.__name__ = real.__name__
    return f


class ScipyLinalg:
    """scipy.linalg inside simphox"""

    def __getattr__(self, k):
        import scipy.linalg as sl
        real = getattr(sl, k)
        sym = {'svd': svd, 'qr': qr, 'block_diag': block_diag}.get(k)
        if sym is not None:
            return _either(sym, real)
        f = getattr(np.linalg, k, None)
        return _either(FUNCS[f], real) if f in FUNCS else real


class Scipy:
    def __getattr__(self, k):
        import scipy
        if k == 'linalg':
            return LINALG
        if k == 'sparse':
            from . import sparse
            return sparse.SP
        return getattr(scipy, k)


LINALG = ScipyLinalg()
FUNCS[np.linalg.svd] = svd
FUNCS[np.linalg.qr] = qr


def substitutions():
    import scipy
    import scipy.linalg as sl
    out = {id(scipy): Scipy(), id(sl): LINALG}
    for k in ('svd', 'qr', 'block_diag', 'inv', 'solve', 'det', 'norm'):
        out[id(getattr(sl, k))] = getattr(LINALG, k)
    return out
