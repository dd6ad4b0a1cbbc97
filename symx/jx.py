"""Symbolic stand-ins for the JAX entry points simphox uses: immutable arrays, jnp functions, scan, custom_vjp, host callbacks.

JAX code is executed from its Python source; the arithmetic and indexing semantics are those of numpy, and the JAX-only parts
(immutability, .at[] updates, scan, custom_vjp, callbacks) are modelled here.  Every run compares the resulting values with the
real JAX functions on the witnesses of each path.
"""
import types

import jax
import jax.numpy as jnp
import numpy as np

from . import core as C
from .core import S, lift, Unsupported
from . import nd
from .nd import SA, NP, JUNK, tosym, plain, _map, sym_ufunc, contains_sym, _fixidx


class _JAt:
    def __init__(self, a, idx=None):
        self.a, self.idx = a, idx

    def __getitem__(self, idx):
        return _JAt(self.a, idx)

    def _upd(self, f, v, accumulate):
        r = self.a.view(SA).copy()
        p = r.view(np.ndarray)
        idx = _jidx(_fixidx(self.idx), p.shape)
        sel = np.arange(p.size).reshape(p.shape)[idx]
        vals = np.broadcast_to(plain(v), np.shape(sel))
        flat = p.reshape(-1)
        seen = {}
        for k, x in zip(np.ravel(sel), vals.ravel()):
            k = int(k)
            if accumulate:
                flat[k] = f(flat[k], x)
            else:
                y = f(flat[k], x)
                if k in seen:
                    d = seen[k]
                    if not (d is y or (not isinstance(d, nd.JunkT) and not isinstance(y, nd.JunkT) and (lift(d) - y).is_zero())):
                        raise Unsupported('scatter with duplicate indices and different values')
                    continue
                seen[k] = y
        for k, y in seen.items():
            flat[k] = y
        return flat.reshape(p.shape).view(JA)

    def set(self, v, **k):
        return self._upd(lambda a, b: b, v, False)

    def add(self, v, **k):
        return self._upd(lambda a, b: a + b, v, True)

    def subtract(self, v, **k):
        return self._upd(lambda a, b: a - b, v, True)

    def multiply(self, v, **k):
        return self._upd(lambda a, b: a * b, v, True)

    mul = multiply

    def divide(self, v, **k):
        return self._upd(lambda a, b: a / b, v, True)

    def get(self, **k):
        return self.a[self.idx]


def _jidx(i, shape):
    """JAX clamps out-of-range gather indices / drops out-of-range updates: not modelled, refused"""
    return i


class JA(SA):
    def __array_ufunc__(self, uf, method, *inputs, out=None, **kw):
        r = sym_ufunc(uf, method, inputs, None, kw)
        return tja(r)

    def __array_function__(self, func, types_, args, kwargs):
        args = _map(args, lambda x: x.view(SA) if isinstance(x, JA) else x)
        kwargs = _map(kwargs, lambda x: x.view(SA) if isinstance(x, JA) else x)
        f = nd.FUNCS.get(func)
        if f is not None:
            r = f(*args, **kwargs)
        else:
            r = func(*args, **kwargs)
        return _map(r, tja)

    def __setitem__(self, i, v):
        raise TypeError('JAX arrays are immutable')

    def __getitem__(self, i):
        r = np.ndarray.__getitem__(self, _jidx(_fixidx(i), self.shape))
        return r

    @property
    def at(self):
        return _JAt(self)

    def copy(self, *a, **k):
        return np.array(self.view(np.ndarray)).view(JA)

    @property
    def real(self):
        return tja(self.view(SA).real)

    @property
    def imag(self):
        return tja(self.view(SA).imag)

    def astype(self, dt, **kw):
        return tja(self.view(SA).astype(dt))

    def dot(self, b):
        return tja(self.view(SA).dot(b))

    def mean(self, axis=None, **k):
        return tja(self.view(SA).mean(axis=axis))


def tja(x):
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return x.view(JA)
        return x
    return x


def _un(x):
    if isinstance(x, JA):
        return x.view(SA)
    return x


class JnpFacade(types.ModuleType):
    ndarray = SA

    def __init__(self):
        super().__init__('jnp_facade')
        self.__dict__['_c'] = {}
        self.linalg = _Sub(NP.linalg)
        self.fft = _Sub(NP.fft)

    def __getattr__(self, k):
        c = self.__dict__['_c']
        if k in c:
            return c[k]
        if not hasattr(jnp, k):
            raise AttributeError(k)
        v = getattr(jnp, k)
        if k in ('float64', 'float32', 'complex128', 'complex64', 'int32', 'int64', 'bool_', 'pi', 'inf', 'e', 'newaxis', 'nan'):
            return getattr(np, k)
        g = getattr(NP, k, None)
        if k in ('r_', 'c_'):
            return _JConcat(g)
        if k in ('mgrid', 'ogrid', 's_', 'index_exp'):
            return g
        if g is None or not callable(g):
            if isinstance(v, (int, float)):
                return v
            raise Unsupported('jnp.' + k)
        c[k] = w = _wrapj(g)
        return w

    def array(self, x, dtype=None, **k):
        if isinstance(x, np.ndarray) and x.dtype.kind in 'iub' and dtype is None:
            return x.copy()
        r = NP.array(x, dtype=dtype)
        if isinstance(r, np.ndarray) and r.dtype.kind in 'fc':
            r = tosym(r)
        return tja(r)

    def asarray(self, x, dtype=None, **k):
        return self.array(x, dtype)

    def max(self, a, axis=None, **k):
        if axis is None and isinstance(a, np.ndarray) and a.dtype == object and not any(C._isinf(x) or x is JUNK for x in plain(a).ravel()):
            return C.maximum_of(list(plain(a).ravel()))
        if isinstance(a, S):
            return a
        return _wrapj(NP.max)(a, axis=axis, **k)

    amax = max


class _JConcat:
    def __init__(self, g):
        self.g = g

    def __getitem__(self, i):
        return tja(self.g[tuple(map(_un, i)) if isinstance(i, tuple) else _un(i)])


def _wrapj(g):
    def w(*a, **k):
        a = _map(a, _un)
        k = {q: _map(v, _un) for q, v in k.items()}
        return _map(g(*a, **k), tja)
    w.__name__ = getattr(g, '__name__', 'f')
    return w


class _Sub:
    def __init__(self, base):
        self.base = base

    def __getattr__(self, k):
        return _wrapj(getattr(self.base, k))


JNP = JnpFacade()


# ------------------------------------------------------------------------------------------------ transformations
def tree_map(f, t, *rest):
    if t is None:
        return None
    if isinstance(t, tuple):
        r = [tree_map(f, x, *[q[i] for q in rest]) for i, x in enumerate(t)]
        return type(t)(*r) if hasattr(t, '_fields') else tuple(r)
    if isinstance(t, list):
        return [tree_map(f, x, *[q[i] for q in rest]) for i, x in enumerate(t)]
    if isinstance(t, dict):
        return {k: tree_map(f, v, *[q[k] for q in rest]) for k, v in t.items()}
    return f(t, *rest)


def _leaves(t):
    out = []
    tree_map(lambda x: out.append(x), t)
    return out


def scan(f, init, xs=None, length=None, reverse=False, unroll=1):
    n = length if length is not None else len(_leaves(xs)[0])
    carry = tree_map(lambda x: tja(tosym(x)) if isinstance(x, np.ndarray) and x.dtype.kind in 'fc' else tja(x), init)
    ys = []
    for i in (reversed(range(n)) if reverse else range(n)):
        x = None if xs is None else tree_map(lambda v: v[i], xs)
        carry, y = f(carry, x)
        ys.append(y)
    if reverse:
        ys = ys[::-1]
    if not ys or not _leaves(ys[0]):
        return carry, None
    return carry, tree_map(lambda *v: JNP.stack(v), ys[0], *ys[1:])


def fori_loop(lo, hi, f, init):
    for i in range(int(lo), int(hi)):
        init = f(i, init)
    return init


def while_loop(c, f, x):
    while bool(c(x)):
        x = f(x)
    return x


def cond(p, t, f, *ops):
    return t(*ops) if bool(p) else f(*ops)


def vmap(f, in_axes=0, out_axes=0, **k):
    def g(*args):
        ax = in_axes if isinstance(in_axes, (tuple, list)) else (in_axes,) * len(args)
        n = next(np.shape(_leaves(a)[0])[x] for a, x in zip(args, ax) if x is not None)
        rs = [f(*[a if x is None else tree_map(lambda v: tja(np.take(v.view(SA) if isinstance(v, JA) else v, i, axis=x)), a) for a, x in zip(args, ax)]) for i in range(n)]
        return tree_map(lambda *v: JNP.stack(v, axis=out_axes), rs[0], *rs[1:])
    return g


def switch(i, fs, *ops):
    i = int(C.to_int(i) if isinstance(i, S) else i)
    return fs[min(max(i, 0), len(fs) - 1)](*ops)


class LaxFacade:
    map = staticmethod(lambda f, xs: scan(lambda c, x: (c, f(x)), (), xs)[1])
    switch = staticmethod(switch)
    select = staticmethod(lambda p, a, b: JNP.where(p, a, b))
    scan, fori_loop, while_loop, cond = staticmethod(scan), staticmethod(fori_loop), staticmethod(while_loop), staticmethod(cond)

    @staticmethod
    def stop_gradient(x):
        return x

    def __getattr__(self, k):
        raise Unsupported('lax.' + k)


LAX = LaxFacade()


class CustomVJP:
    """a function with its hand-written backward rule"""

    def __init__(self, fun, fwd=None, bwd=None):
        self.fun, self.fwd, self.bwd = fun, fwd, bwd
        self.__name__ = getattr(fun, '__name__', 'custom_vjp')

    def defvjp(self, fwd, bwd, **k):
        self.fwd, self.bwd = fwd, bwd

    def __call__(self, *a, **k):
        if k:
            import inspect
            ba = inspect.signature(self.fun).bind(*a, **k)
            ba.apply_defaults()
            a = ba.args
        return self.fun(*a)


class CustomVJPFactory:
    def __call__(self, fun=None, nondiff_argnums=()):
        if fun is None:
            return lambda f: CustomVJP(f)
        return CustomVJP(fun)


def jit(f=None, **k):
    if f is None:
        return lambda g: g
    return f


def _nograd(*a, **k):
    raise Unsupported('automatic differentiation of symbolic code')


class HcbFacade:
    @staticmethod
    def call(f, arg, result_shape=None, **k):
        return tree_map(tja, f(arg))


def pure_callback(f, result_shape, *args, **k):
    return tree_map(tja, f(*args))


class JaxFacade(types.ModuleType):
    def __init__(self):
        super().__init__('jax_facade')
        self.numpy, self.lax, self.jit, self.custom_vjp = JNP, LAX, jit, CustomVJPFactory()
        self.value_and_grad = self.grad = self.vjp = self.jvp = _nograd
        self.pure_callback = pure_callback
        self.tree_util = types.SimpleNamespace(tree_map=tree_map, tree_leaves=_leaves)
        self.tree_map, self.tree_leaves, self.vmap = tree_map, _leaves, vmap
        self.experimental = types.SimpleNamespace(host_callback=HcbFacade)
        self.ShapeDtypeStruct = jax.ShapeDtypeStruct
        self.config = jax.config
        self.Array = jax.Array

    def __getattr__(self, k):
        raise Unsupported('jax.' + k)


JAX = JaxFacade()


def conv(a, b, mode='full', **k):
    a, b = tosym(a), tosym(b)
    if a.ndim != b.ndim:
        raise ValueError('convolve: dimensions')
    full = np.empty([x + y - 1 for x, y in zip(a.shape, b.shape)], dtype=object)
    full[...] = 0.0
    pa, pb = plain(a), plain(b)
    for i in np.ndindex(*a.shape):
        if nd._iszero(pa[i]):
            continue
        for j in np.ndindex(*b.shape):
            if nd._iszero(pb[j]):
                continue
            q = tuple(x + y for x, y in zip(i, j))
            full[q] = full[q] + pa[i] * pb[j]
    if mode == 'full':
        return full.view(JA)
    out = a.shape if mode == 'same' else [abs(x - y) + 1 for x, y in zip(a.shape, b.shape)]
    if mode == 'same' and any(y > x for x, y in zip(a.shape, b.shape)):
        out = [max(x, y) for x, y in zip(a.shape, b.shape)]
    sl = tuple(slice((f - o) // 2, (f - o) // 2 + o) for f, o in zip(full.shape, out))
    return full[sl].view(JA)


def substitutions():
    import jax.experimental.host_callback as hcb
    from jax.scipy.signal import convolve
    d = {id(jnp): JNP, id(jax): JAX, id(jax.lax): LAX, id(jax.jit): jit, id(jax.custom_vjp): JAX.custom_vjp,
         id(jax.value_and_grad): _nograd, id(jax.grad): _nograd, id(hcb): HcbFacade, id(convolve): conv,
         id(jax.lax.scan): scan, id(jax.vmap): vmap, id(jax.lax.cond): cond, id(jax.lax.while_loop): while_loop,
         id(jax.tree_util.tree_map): tree_map, id(jax.tree_map): tree_map, id(jax.pure_callback): pure_callback, id(hcb.call): HcbFacade.call, id(jax.lax.fori_loop): fori_loop}
    return d


def convert(v):
    """module-level objects built with the real JAX at import time"""
    if isinstance(v, jax.custom_vjp):
        return CustomVJP(v.fun, v.fwd, v.bwd)
    if type(v).__name__ == 'PjitFunction':
        return v.__wrapped__
    return None
