"""numpy over symbolic scalars: an object-dtype ndarray subclass and a facade for the module `numpy`."""
import math
import types
from fractions import Fraction

import numpy as np

from . import core as C
from .core import S, SymBool, lift, Unsupported, CTX


class JunkT:
    """A value that must never reach a result (arbitrary initial parameters, disabled noise): absorbs everything."""
    shape = ()
    ndim = 0
    size = 1
    dtype = np.dtype(object)

    def _op(self, *a, **k):
        return self

    __add__ = __radd__ = __sub__ = __rsub__ = __truediv__ = __rtruediv__ = __pow__ = __mod__ = __neg__ = __abs__ = _op
    __floordiv__ = __rpow__ = __rmod__ = conj = conjugate = copy = astype = __deepcopy__ = __copy__ = _op

    def __mul__(self, o):
        if isinstance(o, S):
            return S(C.ZERO) if o.is_zero() else self
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if isinstance(o, (int, float, complex, np.number)) and o == 0:
            return 0.0
        return self
    __rmul__ = __mul__
    real = property(_op)
    imag = property(_op)

    def _bad(self, *a):
        raise Unsupported('a branch or result depends on an arbitrary (uninitialised/random) value')
    __bool__ = __lt__ = __le__ = __gt__ = __ge__ = __float__ = __int__ = __index__ = _bad

    def __array_ufunc__(self, uf, method, *inputs, out=None, **kw):
        return sym_ufunc(uf, method, inputs, out, kw)

    def __repr__(self):
        return '<junk>'


JUNK = JunkT()


EPS = 2.0 ** -52        # core.S.__add__ treats it as an infinitesimal


def jw(f):
    """wrap a scalar function: junk in, junk out"""
    def g(*a):
        for x in a:
            if x is JUNK:
                return JUNK
        return f(*a)
    return g


def _isreal_num(x):
    return isinstance(x, (int, float, np.integer, np.floating, bool, np.bool_))


def _max(a, b):
    if _isreal_num(a) and _isreal_num(b):
        return max(a, b)
    for x, y in ((a, b), (b, a)):
        if C._tiny(y) and y > 0:
            return x if CTX.decide(lift(x) > 0) else y
    d = lift(a) - lift(b) if not (C._isinf(a) or C._isinf(b)) else None
    if d is None:
        return a if (C._isinf(a) and a > 0) or (C._isinf(b) and b < 0) else b
    if d.is_const():
        return a if d.value() >= 0 else b
    sg = CTX.sign(d)
    if sg > 0:
        return a
    if sg < 0:
        return b
    return a if CTX.decide(d >= 0) else b


def _min(a, b):
    if _isreal_num(a) and _isreal_num(b):
        return min(a, b)
    m = _max(a, b)
    return b if m is a else a


def _sign(x):
    if _isreal_num(x):
        return float(np.sign(x))
    x = lift(x)
    if x.is_zero():
        return 0.0
    if not CTX.decide_nonzero(x):
        return 0.0
    sg = CTX.sign(x)
    if sg == 0:
        sg = 1 if CTX.decide(x > 0) else -1
    return float(sg)


def _conj(x):
    return x.conjugate() if hasattr(x, 'conjugate') else x


def _fl(f):
    def g(x):
        if isinstance(x, (int, float, np.integer, np.floating)) and not isinstance(x, bool):
            if math.isinf(x) or math.isnan(x):
                return f(x)
            return f(x)
        x = lift(x)
        return x
    return g


def _floor(x):
    return float(math.floor(x)) if _isreal_num(x) else C.floor(x)


def _ceil(x):
    return float(math.ceil(x)) if _isreal_num(x) else -C.floor(-x)


def _round(x):
    return float(np.around(x)) if _isreal_num(x) else C.around(x)


def _abs(x):
    return abs(x) if _isreal_num(x) else C.absval(x)


def _angle(x):
    if x is JUNK:
        return JUNK
    return C.angle(x)


def _sqrt(x):
    return C.sqrt(x)


def _mod(a, b):
    if _isreal_num(a) and _isreal_num(b):
        return a % b
    return C.mod(a, b)


def _cmp(op):
    def f(a, b):
        return op(a, b)
    return f


def _truth(x):
    return bool(x)


def _not(a):
    if isinstance(a, SymBool):
        return ~a
    return not a


def _and(a, b):
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        return a & b if isinstance(a, SymBool) else b & bool(a)
    return bool(a) and bool(b)


def _or(a, b):
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        return a | b if isinstance(a, SymBool) else b | bool(a)
    return bool(a) or bool(b)


def _pow(a, b):
    if isinstance(a, S) or isinstance(b, S):
        a = lift(a)
        return a ** b
    if isinstance(b, (float, np.floating)) and float(b).is_integer():
        b = int(b)
    return lift(a) ** b


def _div(a, b):
    if a is JUNK or b is JUNK:
        return JUNK
    if C._isinf(a):
        raise Unsupported('inf / x')
    a, b = (a if isinstance(a, S) else lift(a)), b
    return a / b


def _arctan(x):
    return C.arctan2(lift(x), lift(1))


def _expm1(x):
    return C.exp(x) - 1


def _clip(a, lo, hi):
    if lo is not None:
        a = jw(_max)(a, lo)
    return a if hi is None else jw(_min)(a, hi)


def _heaviside(x, h):
    s = _sign(x)
    return h if s == 0 else (0.0 if s < 0 else 1.0)


def _fmod(a, b):
    if _isreal_num(a) and _isreal_num(b):
        return math.fmod(a, b)
    q = lift(a) / b
    return lift(a) - lift(C.to_int(q)) * b


def _log_base(k):
    return lambda x: C.log(x) / lift(math.log(k))


U1 = {
    np.exp2: jw(lambda x: 2 ** lift(x)), np.log2: jw(_log_base(2)), np.log10: jw(_log_base(10)), np.log1p: jw(lambda x: C.log(1 + lift(x))),
    np.rad2deg: jw(lambda x: x * (180 / math.pi)), np.degrees: jw(lambda x: x * (180 / math.pi)), np.cbrt: jw(lambda x: _sign(x) * _pow(_abs(x), 1 / 3)),
    np.signbit: lambda x: bool(lift(x) < 0),
    np.exp: jw(C.exp), np.cos: jw(C.cos), np.sin: jw(C.sin), np.tan: jw(C.tan), np.tanh: jw(C.tanh), np.log: jw(C.log),
    np.sqrt: jw(_sqrt), np.absolute: jw(_abs), np.fabs: jw(_abs), np.conjugate: jw(_conj), np.negative: lambda x: -x,
    np.positive: lambda x: x, np.arccos: jw(C.arccos), np.arcsin: jw(C.arcsin_atom), np.arctan: jw(_arctan),
    np.floor: jw(_floor), np.ceil: jw(_ceil), np.rint: jw(_round), np.sign: jw(_sign), np.spacing: lambda x: EPS,
    np.square: jw(lambda x: x * x), np.reciprocal: jw(lambda x: 1 / lift(x)), np.logical_not: _not, np.invert: _not,
    np.isfinite: lambda x: True, np.isnan: lambda x: False, np.isinf: lambda x: C._isinf(x),
    np.deg2rad: jw(lambda x: x * (math.pi / 180)), np.radians: jw(lambda x: x * (math.pi / 180)), np.expm1: jw(_expm1),
    np.cosh: jw(lambda x: (C.exp(x) + C.exp(-x)) / 2), np.sinh: jw(lambda x: (C.exp(x) - C.exp(-x)) / 2),
    np.trunc: jw(lambda x: lift(C.to_int(x))),
}
import operator as _o  # noqa: E402
U2 = {
    np.add: None, np.subtract: None, np.multiply: None, np.matmul: None,
    np.true_divide: jw(_div), np.power: jw(_pow), np.float_power: jw(_pow), np.remainder: jw(_mod), np.fmod: jw(_fmod), np.logical_xor: lambda a, b: bool(a) != bool(b), np.bitwise_xor: lambda a, b: bool(a) != bool(b),
    np.heaviside: jw(_heaviside), np.copysign: jw(lambda a, b: _abs(a) * (1.0 if _sign(b) >= 0 else -1.0)), np.ldexp: jw(lambda a, b: lift(a) * 2 ** b),
    np.floor_divide: lambda a, b: a // b,
    np.arctan2: jw(C.arctan2), np.maximum: jw(_max), np.minimum: jw(_min), np.fmax: jw(_max), np.fmin: jw(_min),
    np.less: _o.lt, np.less_equal: _o.le, np.greater: _o.gt, np.greater_equal: _o.ge, np.equal: _o.eq, np.not_equal: _o.ne,
    np.logical_and: _and, np.logical_or: _or, np.bitwise_and: _and, np.bitwise_or: _or,
    np.hypot: jw(lambda a, b: C.sqrt(a * a + b * b)),
}
_PY = {}
_CLIP = np.core.umath.clip


def _pyfunc(uf, f, nin):
    r = _PY.get(uf)
    if r is None:
        r = _PY[uf] = np.frompyfunc(f, nin, 1)
    return r


def plain(x):
    """strip SA to a plain object ndarray; wrap scalars"""
    if isinstance(x, SA):
        return x.view(np.ndarray)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return x
        if x.dtype.kind in 'fc':
            return tosym(x).view(np.ndarray)
        return x.astype(object)
    if isinstance(x, (list, tuple)):
        return plain(tosym(x))
    a = np.empty((), dtype=object)
    if hasattr(x, 'dtype') and hasattr(x, '__array__') and not isinstance(x, (S, JunkT, np.generic)):
        return plain(np.asarray(x))
    if isinstance(x, np.generic):
        x = x.item()
    a[()] = x
    return a


def wrap(r):
    if isinstance(r, np.ndarray):
        if r.dtype != object:
            return r
        if r.ndim == 0:
            return r[()]
        return r.view(SA)
    return r


CMPS = {np.less, np.less_equal, np.greater, np.greater_equal, np.equal, np.not_equal, np.logical_not, np.logical_and,
        np.logical_or, np.isfinite, np.isnan, np.isinf, np.invert, np.bitwise_and, np.bitwise_or}


def sym_ufunc(uf, method, inputs, out, kw):
    kw = {k: v for k, v in kw.items() if k not in ('dtype', 'casting', 'order', 'subok')}
    where = kw.pop('where', True)
    if where is not True and not (isinstance(where, (bool, np.bool_)) and where):
        return _ufunc_where(uf, method, inputs, out, kw, where)
    ins = [plain(x) for x in inputs]
    if method == '__call__':
        if uf is np.matmul:
            r = matmul(ins[0], ins[1])
        elif uf in U1:
            r = _pyfunc(uf, U1[uf], 1)(ins[0])
        elif uf in U2:
            f = U2[uf]
            if f is None:
                r = uf(*ins)
            else:
                r = _pyfunc(uf, f, 2)(*ins)
        elif uf is _CLIP:
            r = _pyfunc(uf, _clip, 3)(*ins)
        elif uf.types and all(set(t) <= set('O->') for t in uf.types):
            return _map(uf(*ins), lambda x: wrap(x) if isinstance(x, np.ndarray) else x)
        elif uf is np.modf:
            ip = sym_ufunc(np.trunc, '__call__', inputs, None, {})
            return inputs[0] - ip, ip
        elif uf is np.divmod:
            r = (wrap(sym_ufunc(np.floor_divide, '__call__', inputs, None, {})), wrap(sym_ufunc(np.remainder, '__call__', inputs, None, {})))
            return r
        else:
            raise Unsupported(f'ufunc {uf.__name__}')
        if not isinstance(r, np.ndarray):
            a = np.empty((), dtype=object)
            a[()] = r
            r = a
        if uf in CMPS:
            # concrete truth values become a real boolean array
            if all(isinstance(x, (bool, np.bool_)) for x in r.ravel()):
                r = r.astype(bool)
    elif method == 'reduce':
        axis = kw.get('axis', 0)
        keep = kw.get('keepdims', False)
        if uf in (np.add, np.multiply):
            r = uf.reduce(ins[0], axis=axis, keepdims=keep)
        elif uf in (np.maximum, np.minimum, np.logical_and, np.logical_or):
            f = _pyfunc(uf, U2[uf], 2)
            a = ins[0]
            if axis is None:
                fl = a.ravel()
                r = fl[0]
                for x in fl[1:]:
                    r = U2[uf](r, x)
                if uf in (np.logical_and, np.logical_or):
                    r = bool(r)
                if keep:
                    k = np.empty((1,) * a.ndim, dtype=object)
                    k[(0,) * a.ndim] = r
                    r = k
            else:
                ax = axis if not isinstance(axis, tuple) else axis[0]
                if isinstance(axis, tuple) and len(axis) > 1:
                    for q in sorted((q % a.ndim for q in axis), reverse=True):
                        a = plain(f.reduce(a, axis=q, keepdims=keep))
                    r = a
                else:
                    r = f.reduce(a, axis=ax, keepdims=keep)
        else:
            raise Unsupported(f'{uf.__name__}.reduce')
    elif method == 'accumulate' and uf in (np.add, np.multiply):
        r = uf.accumulate(ins[0], **kw)
    elif method == 'accumulate' and U2.get(uf):
        r = _pyfunc(uf, U2[uf], 2).accumulate(ins[0], **kw)
    elif method == 'reduceat' and uf in (np.add, np.multiply):
        r = uf.reduceat(ins[0], *inputs[1:], **kw)
    elif method == 'outer':
        a, b = ins
        r = uf(wrap(a.reshape(a.shape + (1,) * b.ndim)), wrap(b))
        return r
    elif method == 'at':
        a, idx, b = inputs
        arr = a.view(np.ndarray)
        uf.at(arr, idx, plain(b))
        return None
    else:
        raise Unsupported(f'{uf.__name__}.{method}')
    if out:
        o = out[0]
        if isinstance(o, SA) or o.dtype == object:
            o.view(np.ndarray)[...] = r
            return o
        if o.dtype.kind in 'iub' and not _has_sym(r):
            o[...] = r.astype(o.dtype)
            return o
        if not _has_symbolic(r):
            o[...] = num(r)
            return o
        raise Unsupported('in-place operation stores symbolic values into a concrete array')
    return wrap(r)


def _ufunc_where(uf, method, inputs, out, kw, where):
    mask = np.array([bool(x) for x in np.ravel(plain(where))], dtype=bool).reshape(np.shape(where))
    if method == 'reduce':
        if uf not in (np.add, np.multiply):
            raise Unsupported('reduce where=')
        a = plain(inputs[0])
        b = np.where(np.broadcast_to(mask, a.shape), a, 0.0 if uf is np.add else lift(1))
        return sym_ufunc(uf, method, (b.view(SA),), out, kw)
    if method != '__call__':
        raise Unsupported('ufunc where=')
    r = plain(sym_ufunc(uf, method, inputs, None, kw))
    old = plain(out[0]) if out else np.full(r.shape, JUNK, dtype=object)
    r = np.where(np.broadcast_to(mask, r.shape), r, old)
    if out:
        out[0][...] = r.view(SA)
        return out[0]
    return wrap(r)


def _has_sym(r):
    r = np.asarray(r, dtype=object)
    return any(isinstance(x, (S, JunkT, SymBool)) for x in r.ravel())


def _has_symbolic(r):
    r = np.asarray(r, dtype=object)
    return any((isinstance(x, S) and not x.is_const()) or isinstance(x, (JunkT, SymBool)) for x in r.ravel())


def num(x):
    """concrete numeric array of constants"""
    a = np.asarray(x, dtype=object)
    out = [y.value() if isinstance(y, S) else y for y in a.ravel()]
    return np.array(out).reshape(a.shape)


def matmul(a, b):
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError('matmul of a scalar')
    if a.ndim <= 2 and b.ndim <= 2:
        A = a.reshape(1, -1) if a.ndim == 1 else a
        B = b.reshape(-1, 1) if b.ndim == 1 else b
        if A.shape[1] != B.shape[0]:
            raise ValueError(f'matmul: dimension mismatch {a.shape} {b.shape}')
        out = np.empty((A.shape[0], B.shape[1]), dtype=object)
        for i in range(A.shape[0]):
            row = [(k, A[i, k]) for k in range(A.shape[1]) if not _iszero(A[i, k])]
            for j in range(B.shape[1]):
                acc = 0.0
                for k, x in row:
                    y = B[k, j]
                    if _iszero(y):
                        continue
                    t = x * y
                    acc = t if (not isinstance(acc, (S, JunkT)) and acc == 0) else acc + t
                out[i, j] = acc
        if a.ndim == 1 and b.ndim == 1:
            return out[0, 0]
        if a.ndim == 1:
            return out[0]
        if b.ndim == 1:
            return out[:, 0]
        return out
    return np.matmul(a, b)


def _iszero(x):
    if isinstance(x, S):
        return not x.n.d
    if x is JUNK:
        return False
    return isinstance(x, (int, float, complex)) and x == 0


class _At:
    def __init__(self, a, idx=None):
        self.a, self.idx = a, idx

    def __getitem__(self, idx):
        return _At(self.a, idx)

    def set(self, v):
        r = self.a.copy()
        r[self.idx] = v
        return r

    def add(self, v):
        r = self.a.copy()
        r[self.idx] = r[self.idx] + v
        return r

    def multiply(self, v):
        r = self.a.copy()
        r[self.idx] = r[self.idx] * v
        return r


def _fixidx(i):
    if isinstance(i, tuple):
        return tuple(_fixidx(x) for x in i)
    if isinstance(i, slice):
        return slice(_fixidx(i.start), _fixidx(i.stop), _fixidx(i.step))
    if isinstance(i, S):
        return C.to_int(i)
    if isinstance(i, SymBool):
        return bool(i)
    if isinstance(i, SA):
        p = i.view(np.ndarray)
        if p.size and all(isinstance(x, (bool, np.bool_, SymBool)) for x in p.ravel()):
            return np.array([bool(x) for x in p.ravel()], dtype=bool).reshape(p.shape)
        return np.array([C.to_int(x) if isinstance(x, S) else int(x) for x in p.ravel()], dtype=int).reshape(p.shape)
    if isinstance(i, list) and any(isinstance(x, (S, SymBool)) for x in i):
        return [_fixidx(x) for x in i]
    return i


class Token:
    """bytes or text made from symbolic values: can only be compared and hashed"""

    def __init__(self, items):
        self.items = items


class TextToken(str):
    """printed form of symbolic values"""
    items = None


class _Ctypes:
    def __init__(self, a):
        self.a = a

    def data_as(self, t):
        return self


class SA(np.ndarray):
    def __array_finalize__(self, obj):
        pass

    @property
    def ctypes(self):
        return _Ctypes(self)

    def tobytes(self, *a, **k):
        return Token(list(plain(self).ravel()))

    def __array_ufunc__(self, uf, method, *inputs, out=None, **kw):
        return sym_ufunc(uf, method, inputs, out, kw)

    def __array_function__(self, func, types_, args, kwargs):
        f = FUNCS.get(func)
        if f is not None:
            return f(*args, **kwargs)
        kwargs = dict(kwargs)
        kwargs.pop('dtype', None) if func in _DROP_DTYPE else None
        impl = getattr(func, '_implementation', None)
        if func in _STRIP or impl is None:
            args = _map(args, lambda x: x.view(np.ndarray) if isinstance(x, SA) else x)
            kwargs = _map(kwargs, lambda x: x.view(np.ndarray) if isinstance(x, SA) else x)
            r = func(*args, **kwargs)
        else:
            r = impl(*args, **kwargs)
        return _map(r, wrap)

    # attribute access in the style of float/complex arrays
    @property
    def real(self):
        return _elem(lambda x: x.real if not isinstance(x, (int, float)) else x, self)

    @real.setter
    def real(self, v):
        raise Unsupported('.real assignment')

    @property
    def imag(self):
        return _elem(lambda x: x.imag if not isinstance(x, (int, float)) else 0.0, self)

    def conj(self):
        return np.conjugate(self)

    conjugate = conj

    def astype(self, dt, **kw):
        if dt is object:
            return self.copy()
        k = np.dtype(dt).kind
        if k in 'iu':
            p = self.view(np.ndarray)
            return np.array([C.to_int(x) if isinstance(x, S) else int(x) for x in p.ravel()],
                            dtype=np.dtype(dt)).reshape(p.shape)
        if k == 'b':
            p = self.view(np.ndarray)
            return np.array([bool(x) for x in p.ravel()], dtype=bool).reshape(p.shape)
        return self.copy()

    @property
    def at(self):
        return _At(self)

    def __getitem__(self, i):
        r = np.ndarray.__getitem__(self, _fixidx(i))
        return r

    def __setitem__(self, i, v):
        if isinstance(v, np.ndarray) and not isinstance(v, SA) and v.dtype.kind in 'fc':
            v = tosym(v)
        if isinstance(v, (list, tuple)):
            v = tosym(v)
        if hasattr(v, '__jax_array__') or type(v).__module__.startswith('jaxlib'):
            v = tosym(np.asarray(v))
        np.ndarray.__setitem__(self, _fixidx(i), v.view(np.ndarray) if isinstance(v, SA) else v)

    def __bool__(self):
        if self.size == 1:
            return bool(self.ravel()[0])
        return np.ndarray.__bool__(self)

    def __float__(self):
        return float(self.ravel()[0])

    def max(self, axis=None, out=None, keepdims=False, **k):
        return np.maximum.reduce(self, axis=axis, keepdims=keepdims)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return np.minimum.reduce(self, axis=axis, keepdims=keepdims)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return np.add.reduce(self, axis=axis, keepdims=keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return np.multiply.reduce(self, axis=axis, keepdims=keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        r = np.add.reduce(self, axis=axis, keepdims=keepdims, **{q: v for q, v in k.items() if q == 'where'})
        n = self.size if axis is None else int(np.prod([self.shape[q] for q in (axis if isinstance(axis, tuple) else (axis,))]))
        return r / lift(n)

    def clip(self, min=None, max=None, out=None, **k):
        r = sym_ufunc(_CLIP, '__call__', (self, min, max), None, {})
        if out is not None:
            out[...] = r
            return out
        return r

    def dot(self, b):
        return np.matmul(self, b) if np.ndim(b) else self * b

    def any(self, axis=None, **k):
        if axis is None:
            return any(bool(x) for x in self.ravel())
        return np.logical_or.reduce(self, axis=axis)

    def all(self, axis=None, **k):
        if axis is None:
            return all(bool(x) for x in self.ravel())
        return np.logical_and.reduce(self, axis=axis)

    def round(self, decimals=0, out=None):
        return np.around(self, decimals)

    def argsort(self, axis=-1, *a, **k):
        return argsort(self, axis)

    def argmax(self, axis=None, **k):
        return _argm(self, axis, 1)

    def argmin(self, axis=None, **k):
        return _argm(self, axis, -1)

    def nonzero(self):
        return np.array([bool(x) for x in self.ravel()], dtype=bool).reshape(self.shape).nonzero()

    def item(self, *a):
        return self.view(np.ndarray).item(*a)

    def tolist(self):
        return self.view(np.ndarray).tolist()


def argsort(a, axis=-1, **k):
    a = tosym(a)
    if axis is None:
        a = a.ravel()
    if a.ndim != 1:
        m = np.moveaxis(a, axis, -1)
        out = np.empty(m.shape, dtype=int)
        for i in np.ndindex(*m.shape[:-1]):
            out[i] = argsort(m[i])
        return np.moveaxis(out, -1, axis)
    import functools
    v = list(a)
    if all(not isinstance(x, S) or x.is_const() for x in v):
        return np.argsort(num(np.array(v, dtype=object)), kind='stable')
    idx = list(range(len(v)))

    def cmp(i, j):
        d = lift(v[i]) - v[j]
        if d.is_zero():
            return i - j
        return -1 if bool(d < 0) else (1 if bool(d > 0) else i - j)
    return np.array(sorted(idx, key=functools.cmp_to_key(cmp)), dtype=int)


def _argm(a, axis, sg):
    a = tosym(a)
    if axis is None:
        fl = list(a.ravel())
        b = 0
        for i in range(1, len(fl)):
            d = (lift(fl[i]) - fl[b]) * sg
            if bool(d > 0):
                b = i
        return b
    m = np.moveaxis(a, axis, -1)
    out = np.empty(m.shape[:-1], dtype=int)
    for i in np.ndindex(*m.shape[:-1]):
        out[i] = _argm(m[i], None, sg)
    return out


def _elem(f, a):
    p = plain(a)
    r = np.empty(p.shape, dtype=object)
    for i in np.ndindex(*p.shape):
        r[i] = f(p[i])
    return wrap(r)


def _map(x, f):
    if isinstance(x, tuple):
        if hasattr(x, '_fields'):
            return type(x)(*[_map(y, f) for y in x])
        return tuple(_map(y, f) for y in x)
    if isinstance(x, list):
        return [_map(y, f) for y in x]
    if isinstance(x, dict):
        return {k: _map(v, f) for k, v in x.items()}
    return f(x)


def tosym(x, copy=False):
    """any array-like -> SA, floats lifted to exact scalars; integer arrays keep Python ints"""
    if isinstance(x, SA):
        return x.copy() if copy else x
    if isinstance(x, (S, JunkT)):
        a = np.empty((), dtype=object)
        a[()] = x
        return a.view(SA)
    if not isinstance(x, np.ndarray):
        if hasattr(x, '__array__') and not isinstance(x, np.generic) and not isinstance(x, (list, tuple)):
            x = np.asarray(x)
        else:
            x = _nested(x)
    if x.dtype.kind in 'fc':
        out = np.empty(x.shape, dtype=object)
        of, xf = out.ravel() if x.ndim else out, x
        flat = [_lift_num(y) for y in x.ravel().tolist()]
        o = np.empty(len(flat), dtype=object)
        o[:] = flat
        return o.reshape(x.shape).view(SA)
    if x.dtype.kind in 'iub':
        return x.astype(object).view(SA)
    if x.dtype == object:
        return (x.copy() if copy else x).view(SA)
    raise Unsupported(f'array of dtype {x.dtype}')


def _lift_num(y):
    if isinstance(y, float) and (math.isinf(y) or math.isnan(y)):
        return y
    if y == 0:
        return 0.0
    return lift(y)


def _nested(x):
    """np.array for nested sequences possibly holding symbolic scalars / symbolic arrays"""
    def conv(v):
        if isinstance(v, (list, tuple)):
            return [conv(y) for y in v]
        if isinstance(v, SA):
            return v.view(np.ndarray).tolist() if v.ndim else v.view(np.ndarray)[()]
        if isinstance(v, np.ndarray):
            return v.tolist()
        if hasattr(v, '__array__') and not isinstance(v, (S, JunkT, np.generic)):
            return conv(np.asarray(v))
        if isinstance(v, np.generic):
            return v.item()
        return v
    y = conv(x)

    def shape(v):
        if isinstance(v, list):
            if not v:
                return (0,)
            s0 = shape(v[0])
            for z in v[1:]:
                if shape(z) != s0:
                    raise ValueError('inhomogeneous array')
            return (len(v),) + s0
        return ()
    flatl = []

    def fl(v):
        if isinstance(v, list):
            for z in v:
                fl(z)
        else:
            flatl.append(v)
    sh = shape(y)
    fl(y)
    if not any(isinstance(v, (S, JunkT, SymBool)) for v in flatl):
        return np.array(y)
    o = np.empty(len(flatl), dtype=object)
    for i, v in enumerate(flatl):
        o[i] = _lift_num(v) if isinstance(v, (float, complex)) else v
    return o.reshape(sh)


def contains_sym(x):
    if isinstance(x, (S, SA, JunkT, SymBool)):
        return True
    if isinstance(x, (list, tuple)):
        return any(contains_sym(y) for y in x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return True
    return False


# ------------------------------------------------------------------ array functions
FUNCS = {}
_DROP_DTYPE = set()
_STRIP = {np.einsum, np.dot, np.where, np.concatenate, np.array_repr, np.array_str}


def implements(*fs):
    def d(g):
        for f in fs:
            FUNCS[f] = g
        return g
    return d


@implements(np.angle)
def f_angle(z, deg=False):
    r = _elem(_angle, tosym(z))
    return r * (180 / math.pi) if deg else r


@implements(np.real)
def f_real(z):
    return tosym(z).real if np.ndim(z) else (z.real if hasattr(z, 'real') else z)


@implements(np.imag)
def f_imag(z):
    return tosym(z).imag if np.ndim(z) else (z.imag if hasattr(z, 'imag') else 0)


@implements(np.linalg.norm)
def f_norm(x, ord=None, axis=None, keepdims=False):
    x = tosym(x)
    vec = x.ndim == 1 or isinstance(axis, int)
    if vec and ord in (1, np.inf, -np.inf, 0):
        if ord == 0:
            return np.sum(x != 0, axis=axis, keepdims=keepdims)
        a = np.abs(x)
        return a.sum(axis=axis, keepdims=keepdims) if ord == 1 else (a.max if ord > 0 else a.min)(axis=axis, keepdims=keepdims)
    if ord not in (None, 2, 'fro') or (ord == 2 and not vec):
        raise Unsupported('norm ord')
    s = (x * x.conj()).sum(axis=axis, keepdims=keepdims)
    return np.sqrt(s)


@implements(np.clip)
def f_clip(a, a_min=None, a_max=None, out=None, **k):
    return tosym(a).clip(a_min, a_max, out=out) if np.ndim(a) or np.ndim(a_min) or np.ndim(a_max) else _clip(a, a_min, a_max)


@implements(np.interp)
def f_interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Unsupported('interp period')
    xs, fs = [lift(v) for v in tosym(xp)], [lift(v) for v in tosym(fp)]

    def one(v):
        v = lift(v)
        if bool(v < xs[0]):
            return fs[0] if left is None else left
        if bool(v >= xs[-1]):
            return fs[-1] if right is None or bool(v <= xs[-1]) else right
        for i in range(len(xs) - 1):
            if bool(v < xs[i + 1]):
                return fs[i] + (fs[i + 1] - fs[i]) * (v - xs[i]) / (xs[i + 1] - xs[i])
    return _elem(one, tosym(x))


@implements(np.fix)
def f_fix(x, out=None):
    return np.trunc(tosym(x))


@implements(np.linalg.inv)
def f_inv(a):
    a = tosym(a)
    n = a.shape[0]
    return f_solve(a, np.eye(n))


@implements(np.linalg.solve)
def f_solve(a, b):
    a = plain(tosym(a)).copy()
    b = plain(tosym(b)).copy()
    one = b.ndim == 1
    if one:
        b = b.reshape(-1, 1)
    n = a.shape[0]
    for i in range(n):
        p = None
        for r in range(i, n):
            x = lift(a[r, i])
            if not x.is_zero() and (x.is_const() or CTX.decide_nonzero(x)):
                p = r
                break
        if p is None:
            raise np.linalg.LinAlgError('Singular matrix')
        if p != i:
            a[[i, p]] = a[[p, i]]
            b[[i, p]] = b[[p, i]]
        iv = 1 / lift(a[i, i])
        a[i] = a[i] * iv
        b[i] = b[i] * iv
        for r in range(n):
            if r != i and not _iszero(a[r, i]):
                f = a[r, i]
                a[r] = a[r] - f * a[i]
                b[r] = b[r] - f * b[i]
    return wrap(b[:, 0] if one else b)


@implements(np.linalg.det)
def f_det(a):
    a = plain(tosym(a))
    n = a.shape[0]
    if n == 1:
        return a[0, 0]
    r = 0.0
    for j in range(n):
        if not _iszero(a[0, j]):
            m = np.delete(np.delete(a, 0, 0), j, 1)
            r = r + (-1) ** j * a[0, j] * f_det(wrap(m))
    return r


@implements(np.around, np.round_, np.round)
def f_around(a, decimals=0, out=None):
    sc = lift(10) ** int(decimals)
    return np.rint(tosym(a) * sc) / sc if decimals else np.rint(tosym(a))


@implements(np.isclose)
def f_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = tosym(a), tosym(b)
    return np.abs(a - b) <= atol + rtol * np.abs(b)


@implements(np.allclose)
def f_allclose(a, b, **k):
    return bool(np.all(f_isclose(a, b, **k)))


@implements(np.max, np.amax)
def f_max(a, axis=None, out=None, keepdims=False, **k):
    return np.maximum.reduce(tosym(a), axis=axis, keepdims=bool(keepdims) if keepdims is not np._NoValue else False)


@implements(np.min, np.amin)
def f_min(a, axis=None, out=None, keepdims=False, **k):
    return np.minimum.reduce(tosym(a), axis=axis, keepdims=bool(keepdims) if keepdims is not np._NoValue else False)


@implements(np.sum)
def f_sum(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    w = k.get('where', True)
    w = {} if w is True or w is np._NoValue else {'where': w}
    r = np.add.reduce(tosym(a), axis=axis, keepdims=keepdims if keepdims is not np._NoValue else False, **w)
    return r if k.get('initial', 0) is np._NoValue else r + k['initial'] if 'initial' in k else r


@implements(np.nansum)
def f_nansum(a, axis=None, **k):
    return f_sum(a, axis)


@implements(np.prod)
def f_prod(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return np.multiply.reduce(tosym(a), axis=axis, keepdims=keepdims)


@implements(np.mean)
def f_mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return tosym(a).mean(axis=axis, keepdims=keepdims if keepdims is not np._NoValue else False)


@implements(np.any)
def f_any(a, axis=None, **k):
    return tosym(a).any(axis=axis)


@implements(np.all)
def f_all(a, axis=None, **k):
    return tosym(a).all(axis=axis)


@implements(np.where)
def f_where(c, *xy):
    if isinstance(c, SA):
        c = np.array([bool(x) for x in c.ravel()], dtype=bool).reshape(c.shape)
    elif isinstance(c, SymBool):
        c = np.asarray(bool(c))
    if not xy:
        return np.where(np.asarray(c))
    x, y = plain(xy[0]), plain(xy[1])
    return wrap(np.where(np.asarray(c, dtype=bool), x, y))


@implements(np.argsort)
def f_argsort(a, axis=-1, *x, **k):
    return argsort(a, axis)


@implements(np.sort)
def f_sort(a, axis=-1, *x, **k):
    a = tosym(a)
    return np.take_along_axis(a, argsort(a, axis), axis=axis)


@implements(np.argmax)
def f_argmax(a, axis=None, **k):
    return _argm(a, axis, 1)


@implements(np.argmin)
def f_argmin(a, axis=None, **k):
    return _argm(a, axis, -1)


@implements(np.nonzero)
def f_nonzero(a):
    return tosym(a).nonzero()


@implements(np.count_nonzero)
def f_cnz(a, axis=None, **k):
    m = np.array([bool(x) for x in tosym(a).ravel()], dtype=bool).reshape(np.shape(a))
    return np.count_nonzero(m, axis=axis)


@implements(np.concatenate)
def f_concat(seq, axis=0, out=None, **k):
    return wrap(np.concatenate([plain(x) for x in seq], axis=axis))


@implements(np.zeros_like)
def f_zl(a, dtype=None, **k):
    return NP.zeros(k.get('shape') or np.shape(a), dtype=dtype if dtype is not None else (float if isinstance(a, SA) else np.asarray(a).dtype))


@implements(np.ones_like)
def f_ol(a, dtype=None, **k):
    return NP.ones(k.get('shape') or np.shape(a), dtype=dtype if dtype is not None else (float if isinstance(a, SA) else np.asarray(a).dtype))


@implements(np.empty_like)
def f_el(a, dtype=None, **k):
    return f_zl(a, dtype)


@implements(np.full_like)
def f_fl(a, v, dtype=None, **k):
    return NP.full(np.shape(a), v)


@implements(np.copy)
def f_copy(a, *x, **k):
    return tosym(a).copy()


@implements(np.diff)
def f_diff(a, n=1, axis=-1, **k):
    a = tosym(a)
    for _ in range(n):
        sl1 = [slice(None)] * a.ndim
        sl2 = [slice(None)] * a.ndim
        sl1[axis], sl2[axis] = slice(1, None), slice(None, -1)
        a = a[tuple(sl1)] - a[tuple(sl2)]
    return a


@implements(np.isrealobj)
def f_isrealobj(a):
    return all(lift(x).is_real() for x in tosym(a).ravel())


@implements(np.iscomplexobj)
def f_iscomplexobj(a):
    return not f_isrealobj(a)


@implements(np.unique)
def f_unique(a, *x, **k):
    raise Unsupported('unique')


@implements(np.fft.fft)
def f_fft(a, n=None, axis=-1, norm=None):
    return _dft(tosym(a), axis, -1)


@implements(np.fft.ifft)
def f_ifft(a, n=None, axis=-1, norm=None):
    a = tosym(a)
    return _dft(a, axis, 1) / lift(a.shape[axis])


def _dft(a, axis, sg):
    a = np.moveaxis(a, axis, -1)
    n = a.shape[-1]
    W = tosym([[C.exp(lift(1j * sg * 2 * math.pi * ((i * j) % n) / n)) for j in range(n)] for i in range(n)])
    r = wrap(np.dot(plain(a), plain(W).T))
    return np.moveaxis(r, -1, axis)


# ------------------------------------------------------------------ facade
def _want_sym(dtype):
    if dtype is None:
        return True
    try:
        return np.dtype(dtype).kind in 'fcO'
    except TypeError:
        return True


def _shape(s):
    if isinstance(s, (tuple, list, np.ndarray)):
        return tuple(int(x) for x in s)
    return (int(s),)


def _const_arr(shape, v):
    a = np.empty(_shape(shape), dtype=object)
    a[...] = v
    return a.view(SA) if a.ndim else a[()]


class RandomFacade:
    def _sh(self, *s):
        return _const_arr(s, JUNK) if s else JUNK
    randn = rand = _sh

    def standard_normal(self, size=None):
        return JUNK if size is None else _const_arr(size, JUNK)

    def normal(self, loc=0., scale=1., size=None):
        return loc + scale * (JUNK if size is None else _const_arr(size, JUNK))

    def seed(self, *a):
        return None

    def __getattr__(self, k):
        raise Unsupported(f'np.random.{k}')


class LinalgFacade:
    LinAlgError = np.linalg.LinAlgError

    def __getattr__(self, k):
        return _wrapf(getattr(np.linalg, k))


class FFTFacade:
    def __getattr__(self, k):
        return _wrapf(getattr(np.fft, k))


def _symargs(args, kw):
    def f(x):
        if isinstance(x, SA):
            return x
        if isinstance(x, np.ndarray) and x.dtype == object:
            return x.view(SA)
        return x

    def g(x):
        if isinstance(x, (list, tuple)) and contains_sym(x):
            if all(isinstance(y, np.ndarray) and y.ndim for y in x):
                return type(x)(g(y) for y in x)
            try:
                return tosym(x)
            except ValueError:
                return type(x)(g(y) for y in x)
        return f(x)
    return tuple(g(a) for a in args), {k: g(v) for k, v in kw.items()}


class UfuncFacade:
    """a ufunc of the facade with its methods"""

    def __init__(self, uf, call):
        self._uf, self._call = uf, call
        self.__name__ = uf.__name__
        self.__wrapped_np__ = uf

    def __call__(self, *a, **k):
        return self._call(*a, **k)

    def __getattr__(self, k):
        m = getattr(self._uf, k)
        if k not in ('reduce', 'accumulate', 'outer', 'at', 'reduceat'):
            return m

        def w(*args, **kw):
            if contains_sym(args) or contains_sym(tuple(kw.values())):
                if k == 'at':
                    return sym_ufunc(self._uf, k, args, None, kw)
                if len(args) > 1 and k in ('reduce', 'accumulate'):
                    kw['axis'], args = args[1], args[:1]
                args = args if k == 'outer' else (tosym(args[0]),) + args[1:]
                return sym_ufunc(self._uf, k, args, None, kw)
            return m(*args, **kw)
        return w


def _wrapf(fn):
    def w(*args, **kw):
        if isinstance(fn, np.ufunc):
            out = kw.pop('out', None)
            if not contains_sym(args) and out is None:
                if fn in _LIFTING and all(isinstance(a, (int, float, complex, np.number)) or (
                        isinstance(a, np.ndarray) and a.dtype.kind in 'fc') for a in args):
                    return sym_ufunc(fn, '__call__', args, None, kw)
                return fn(*args, **kw)
            return sym_ufunc(fn, '__call__', args, (out,) if out is not None else None, kw)
        seq = contains_sym(args) or contains_sym(tuple(kw.values()))
        if not seq:
            return fn(*args, **kw)
        f = FUNCS.get(fn)
        if fn in _JOINS:
            def nest(x):
                return [nest(y) for y in x] if isinstance(x, (list, tuple)) else tosym(x)
            seq = args[0] if args else kw.pop('arrays' if fn in (np.stack, np.concatenate, np.block) else 'tup')
            args = (nest(seq) if fn is np.block else [tosym(y) for y in seq],) + args[1:]
        else:
            args, kw = _symargs(args, kw)
        if f is not None:
            return f(*args, **kw)
        r = fn(*args, **kw)
        return _map(r, lambda x: wrap(x) if isinstance(x, np.ndarray) else x)
    w.__name__ = getattr(fn, '__name__', 'f')
    w.__wrapped_np__ = fn
    return UfuncFacade(fn, w) if isinstance(fn, np.ufunc) else w


_JOINS = {np.hstack, np.vstack, np.stack, np.concatenate, np.block, np.dstack, np.column_stack}
_LIFTING = {np.exp, np.cos, np.sin, np.tan, np.sqrt}


class NumpyFacade(types.ModuleType):
    def __init__(self):
        super().__init__('numpy_facade')
        self.__dict__['_cache'] = {}
        self.random = RandomFacade()
        self.linalg = LinalgFacade()
        self.fft = FFTFacade()

    # creation
    def zeros(self, shape, dtype=None, order='C', **k):
        return _const_arr(shape, 0.0) if _want_sym(dtype) else np.zeros(_shape(shape), dtype)

    empty = zeros

    def ones(self, shape, dtype=None, order='C', **k):
        return _const_arr(shape, lift(1)) if _want_sym(dtype) else np.ones(_shape(shape), dtype)

    def full(self, shape, v, dtype=None, **k):
        return tosym(np.broadcast_to(plain(v), _shape(shape)).copy()) if _want_sym(dtype) else np.full(_shape(shape), v, dtype)

    def eye(self, n, M=None, k=0, dtype=None, **kw):
        return tosym(np.eye(int(n), M, k)) if _want_sym(dtype) else np.eye(int(n), M, k, dtype)

    def identity(self, n, dtype=None):
        return self.eye(n, dtype=dtype)

    def array(self, x, dtype=None, copy=True, **k):
        if dtype is not None and not _want_sym(dtype):
            if contains_sym(x):
                return tosym(x).astype(dtype)
            return np.array(x, dtype=dtype)
        if not contains_sym(x) and dtype is None:
            try:
                r = np.array(x, **k)
            except Exception:
                r = None
            if r is not None and r.dtype.kind in 'iubUSO' and not (r.dtype == object and contains_sym(r.ravel().tolist())):
                if r.dtype != object:
                    return r
        r = tosym(x, copy=True)
        nd = k.get('ndmin', 0)
        while r.ndim < nd:
            r = r[None]
        if r.ndim == 0 and not isinstance(x, np.ndarray):
            return r
        return r

    def asarray(self, x, dtype=None, **k):
        if isinstance(x, SA) and (dtype is None or _want_sym(dtype)):
            return x
        if isinstance(x, np.ndarray) and x.dtype.kind in 'iub' and dtype is None:
            return x
        return self.array(x, dtype)

    ascontiguousarray = asarray
    asanyarray = asarray

    def zeros_like(self, a, dtype=None, **k):
        return f_zl(a, dtype)

    def ones_like(self, a, dtype=None, **k):
        return f_ol(a, dtype)

    def empty_like(self, a, dtype=None, **k):
        return f_zl(a, dtype)

    def full_like(self, a, v, dtype=None, **k):
        return f_fl(a, v)

    def spacing(self, x):
        return EPS

    def isscalar(self, x):
        return True if isinstance(x, (S, JunkT)) else np.isscalar(x)

    def where(self, c, *xy):
        if contains_sym(c) or contains_sym(xy):
            return f_where(c, *xy)
        return np.where(c, *xy)

    def arange(self, *a, **k):
        if any(isinstance(x, S) for x in a):
            v = [x.value() if isinstance(x, S) and x.is_const() else x for x in a]
            if not any(isinstance(x, S) for x in v):
                if all(float(x).is_integer() for x in v):
                    return np.arange(*[int(x) for x in v], **k).astype(float)
                return np.arange(*v, **k)
            start, stop, step = (0, v[0], 1) if len(v) == 1 else ((v[0], v[1], 1) if len(v) == 2 else v)
            n = -C.floor(-((lift(stop) - start) / step))
            n = max(0, C.to_int(n))
            return tosym([start + i * lift(step) for i in range(n)]) if n else self.zeros(0)
        return np.arange(*a, **k)

    def linspace(self, a, b, num=50, **k):
        if contains_sym((a, b)):
            if num == 1:
                return tosym([a])
            return tosym([lift(a) + (lift(b) - a) * Fraction(i, num - 1) for i in range(num)])
        return np.linspace(a, b, num, **k)

    def float64(self, x=0.0):
        return x if isinstance(x, (S, SA)) else np.float64(x)

    def __getattr__(self, k):
        c = self.__dict__['_cache']
        if k in c:
            return c[k]
        v = getattr(np, k)
        if isinstance(v, type) or isinstance(v, types.ModuleType):
            return v
        if callable(v):
            v = c[k] = _wrapf(v)
        return v


NP = NumpyFacade()
# np.float64 must stay usable as a dtype
del NumpyFacade.float64


def _s_ufunc(self, uf, method, *inputs, out=None, **kw):
    return sym_ufunc(uf, method, inputs, out, kw)


def _s_func(self, func, types_, args, kwargs):
    f = FUNCS.get(func)
    if f is not None:
        return f(*args, **kwargs)
    args = tuple(tosym(x) if isinstance(x, S) else x for x in args)
    return _wrapf(func)(*args, **kwargs)


S.__array_ufunc__ = _s_ufunc
S.__array_function__ = _s_func


def _s_getitem(self, i):
    """NumPy scalars can be indexed with new axes, an ellipsis or nothing"""
    a = np.empty((), dtype=object)
    a[()] = self
    r = a[i]
    return r.view(SA) if isinstance(r, np.ndarray) and r.ndim else r[()] if isinstance(r, np.ndarray) else r


S.__getitem__ = _s_getitem
S.__iter__ = None
SymBool.shape = ()
SymBool.ndim = 0
