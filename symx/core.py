"""Symbolic scalars, algebraic atoms, path exploration and the z3 back end."""
import math
import cmath
import os
import sys
import time
from fractions import Fraction

import numpy as np

if '/opt/veriftools/pyvenv/lib/python3.12/site-packages' not in sys.path:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3  # noqa: E402

from . import poly as P  # noqa: E402
from .poly import Poly, decode, mono, ONE, ZERO  # noqa: E402


class Unsupported(Exception):
    """The encoding does not cover this operation (error exit, never a verdict)."""


class Infeasible(BaseException):
    """The current path contradicts an assumption."""


class Inconclusive(Exception):
    pass


# ----------------------------------------------------------------------------- atoms
class Atom:
    __slots__ = ('id', 'name', 'kind', 'pos', 'inv', 'defn', 'unit', 'lo', 'hi', 'base')

    def __init__(self, id_, name, kind, pos=False, inv=False, defn=None, lo=None, hi=None, base=False):
        self.id, self.name, self.kind, self.pos, self.inv, self.defn = id_, name, kind, pos, inv, defn
        self.unit = None     # for angle-valued atoms with a known exp(i*atom): an S
        self.lo, self.hi = lo, hi
        self.base = base

    def __repr__(self):
        return self.name


class Registry:
    def __init__(self):
        self.clear()

    def clear(self):
        P.RULES.clear()
        self.atoms = [Atom(0, 'I', 'I'), Atom(1, 'sqrt2', 'sqrt2')]
        self.by_key = {}
        self.expmap = {}      # (mono, 'unit'|'exp') -> (q0, atom)
        self.factors = {}     # key -> id
        self.factor_list = []

    def get(self, key, **kw):
        a = self.by_key.get(key)
        if a is None:
            a = Atom(len(self.atoms), **kw)
            self.atoms.append(a)
            self.by_key[key] = a
        return a


REG = Registry()


def factor_id(p):
    k = p.key()
    i = REG.factors.get(k)
    if i is None:
        i = len(REG.factor_list)
        REG.factors[k] = i
        REG.factor_list.append(p)
    return i


# ----------------------------------------------------------------------------- scalars
_R2 = math.sqrt(2.0)


def lift_real(f):
    if isinstance(f, (bool, np.bool_)):
        return Poly.const(int(f))
    if isinstance(f, (int, np.integer)):
        return Poly.const(int(f))
    if isinstance(f, Fraction):
        return Poly.const(f)
    f = float(f)
    if f == 0:
        return ZERO
    if math.isinf(f) or math.isnan(f):
        raise Unsupported(f'non-finite constant {f}')
    c = Fraction(f)
    if c.denominator > 1024:
        # the double next to a simple ratio stands for that ratio: 1 / 9, 0.1, 3 * 0.1
        near = c.limit_denominator(1000)
        if near and abs(near - c) <= abs(near) / (1 << 51):
            return Poly.const(near)
    g = f / _R2
    s = g * 1024
    r = round(s)
    if r != 0 and abs(r) < 1 << 20 and abs(s - r) < 4e-16 * abs(s) and f * 1024 != round(f * 1024):
        return Poly({P.S_BIT: r}, 1024).norm()
    return Poly.const(c)


def lift(x):
    if isinstance(x, S):
        return x
    if isinstance(x, (complex, np.complexfloating)):
        re, im = lift_real(x.real), lift_real(x.imag)
        return S(re + im * P.I_P)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    if isinstance(x, (int, float, np.integer, np.floating, bool, np.bool_, Fraction)):
        return S(lift_real(x))
    if isinstance(x, SymBool):
        return S(ONE) if bool(x) else S(ZERO)
    if hasattr(x, 'dtype') and getattr(x, 'ndim', None) == 0:
        return lift(np.asarray(x).item())
    raise Unsupported(f'cannot lift {type(x)}')


def _is_num(x):
    return isinstance(x, (S, int, float, complex, np.number, bool, np.bool_, Fraction)) or (
        isinstance(x, np.ndarray) and x.ndim == 0)


def _isinf(x):
    return isinstance(x, (float, np.floating)) and math.isinf(x)


TINY = 1e-13


def _tiny(o):
    """a regulariser such as np.finfo(float).eps, np.spacing(1), 1e-15: an infinitesimal, of size o and sign of o"""
    return isinstance(o, (float, np.floating)) and 0 < abs(o) <= TINY


class S:
    """num / prod(factor^e): an element of the (Laurent) rational function field over the atoms."""
    __slots__ = ('n', 'd')

    def __init__(self, n, d=None):
        self.n = n
        self.d = d or {}

    # numpy protocol hooks are installed by nd.py (__array_ufunc__, __array_function__)
    shape = ()
    ndim = 0
    size = 1

    # -- helpers
    def is_const(self):
        return not self.d and all(m < (1 << (2 * P.SH)) and m >= 0 for m in self.n.d)

    def value(self):
        """numeric value of a constant"""
        z = 0
        for m, c in self.n.d.items():
            v = c / self.n.q if self.n.q != 1 else c
            v = float(Fraction(c, self.n.q))
            if m & P.S_BIT:
                v *= _R2
            z += v * (1j if m & 1 else 1)
        return z if isinstance(z, complex) and z.imag != 0 else (z.real if isinstance(z, complex) else z)

    def is_zero(self):
        return not self.n.d

    def __repr__(self):
        return show(self)

    # -- arithmetic
    def __neg__(self):
        return S(-self.n, self.d)

    def __pos__(self):
        return self

    def __add__(self, o):
        if not isinstance(o, S):
            if not _is_num(o):
                return NotImplemented
            if _isinf(o):
                return o
            if _tiny(o):
                # x + eps is x where x is not zero (x < 0 < |x| < eps is a matter of rounding)
                if self.is_const():
                    return self if self.n.d else lift(o)
                return self if CTX.decide_nonzero(self) else lift(o)
            o = lift(o)
        if not self.n.d:
            return o
        if not o.n.d:
            return self
        if not self.d and not o.d:
            return S(self.n + o.n)
        if self.d == o.d:
            return simp(S(self.n + o.n, self.d))
        # lcm
        d = dict(self.d)
        for f, e in o.d.items():
            if d.get(f, 0) < e:
                d[f] = e
        a, b = self.n, o.n
        for f, e in d.items():
            ea = e - self.d.get(f, 0)
            eb = e - o.d.get(f, 0)
            if ea:
                a = a * (REG.factor_list[f] ** ea)
            if eb:
                b = b * (REG.factor_list[f] ** eb)
        return simp(S(a + b, d))

    __radd__ = __add__

    def __sub__(self, o):
        if not isinstance(o, S):
            if not _is_num(o):
                return NotImplemented
            if _isinf(o):
                return -o
            o = lift(o)
        return self + (-o)

    def __rsub__(self, o):
        if not _is_num(o):
            return NotImplemented
        return (-self) + o

    def __mul__(self, o):
        if not isinstance(o, S):
            if not _is_num(o):
                if hasattr(o, 'tocsr'):
                    from .sparse import SymMat
                    return SymMat.of(o) * self
                return NotImplemented
            if _isinf(o):
                return self._times_inf(o)
            o = lift(o)
        n = self.n * o.n
        if not n.d:
            return S(ZERO)
        if not self.d and not o.d:
            return S(n)
        d = dict(self.d)
        for f, e in o.d.items():
            d[f] = d.get(f, 0) + e
        return simp(S(n, d))

    __rmul__ = __mul__

    def _times_inf(self, o):
        if self.is_zero():
            return float('nan')
        if not self.is_real():
            raise Unsupported('infinite complex value')
        return o if bool(self > 0) else -o

    def inverse(self):
        if not self.n.d:
            raise ZeroDivisionError('symbolic division by zero')
        num = ONE
        for f, e in self.d.items():
            num = num * (REG.factor_list[f] ** e)
        p = self.n
        # rationalise: remove I, sqrt2 and ruled atoms from the divisor
        while True:
            ats = p.atoms()
            bad = [k for k in ats if k < 2 or k in P.RULES]
            if not bad:
                break
            if len(p.d) == 1:
                (m, c), = p.d.items()
                # single term: handle directly
                k = max(bad)
                if k == 0:
                    num = num * (-P.I_P)
                    p = Poly({m - 1: c}, p.q, p.r)
                elif k == 1:
                    num = num * P.SQ2_P
                    p = Poly({m - P.S_BIT: 2 * c}, p.q, p.r)
                else:
                    num = num * Poly({mono(k): 1}, 1, True)
                    p = P.reduce_rules(Poly({m - mono(k): c}, p.q, True).__mul_norule__(P.RULES[k]))
                continue
            k = max(bad)
            if k >= 2:
                A, B = P.split_atom(p, k)
                mk = Poly({mono(k): 1}, 1, True)
                cj = A - B * mk
                num = num * cj
                p = A * A - B * B * P.RULES[k]
            elif k == 1:
                A, B = P.split_atom(p, 1)
                num = num * (A - B * P.SQ2_P)
                p = A * A - (B * B).scale(2)
            else:
                A, B = P.split_atom(p, 0)
                num = num * (A - B * P.I_P)
                p = A * A + B * B
            if not p.d:
                raise ZeroDivisionError('division by a zero divisor')
        return div_by_poly(num, {}, p)

    def __truediv__(self, o):
        if not isinstance(o, S):
            if not _is_num(o):
                return NotImplemented
            if _isinf(o):
                return S(ZERO)
            o = lift(o)
        if o.is_zero():
            if not self.is_zero() and self.is_real():      # numpy: signed infinity
                return float('inf') if bool(self > 0) else float('-inf')
            raise ZeroDivisionError('symbolic division by zero')
        if o.n.is_const() and not o.d:
            return S(self.n.scale(1 / o.n.const_value()), self.d)
        return self * o.inverse()

    def __rtruediv__(self, o):
        if not _is_num(o):
            return NotImplemented
        if _isinf(o):
            return self._times_inf(o)
        return lift(o) / self

    def __pow__(self, e):
        if isinstance(e, S):
            if not e.is_const():
                return _real_power(self, e)
            e = e.value()
        if isinstance(e, (float, np.floating, Fraction)):
            if Fraction(e).denominator == 1:
                e = int(e)
            elif Fraction(e).denominator in (2, 4):
                r = sqrt(self)
                r = r if Fraction(e).denominator == 2 else sqrt(r)
                return r ** int(Fraction(e) * Fraction(e).denominator)
            else:
                if self.is_const():
                    return lift(self.value() ** float(e))
                return _real_power(self, e)
        e = int(e)
        if e < 0:
            return self.inverse() ** (-e)
        n = self.n ** e
        return S(n, {f: k * e for f, k in self.d.items()} if e else {})

    def __rpow__(self, o):
        return lift(o) ** self

    def __mod__(self, o):
        return mod(self, o)

    def __floordiv__(self, o):
        return floor(self / o)

    def __rfloordiv__(self, o):
        return floor(lift(o) / self)

    def __abs__(self):
        return absval(self)

    # -- complex structure
    def conj(self):
        d = {}
        need = False
        units = _unit_ids()
        for m, c in self.n.d.items():
            if m & 1:
                c = -c
            if units:
                mm = m
                for k, e in decode(m):
                    if k in units:
                        mm -= mono(k, 2 * e) if e > 0 else -mono(k, -2 * e)
                m = mm
            d[m] = c
        s = S(Poly(d, self.n.q, self.n.r), self.d)
        if units and self.d:
            for f in self.d:
                if REG.factor_list[f].atoms() & units:
                    need = True
        if need:
            out = S(s.n)
            for f, e in self.d.items():
                fp = REG.factor_list[f]
                if fp.atoms() & units:
                    out = out * (S(fp).conj().inverse() ** e)
                else:
                    out = simp(S(out.n, {**out.d, f: out.d.get(f, 0) + e}))
            return out
        return s

    conjugate = conj

    @property
    def real(self):
        if _no_complex(self):
            return self
        return (self + self.conj()) / 2

    @property
    def imag(self):
        if _no_complex(self):
            return S(ZERO)
        return (self - self.conj()) / S(P.I_P.scale(2))

    def is_real(self):
        return _no_complex(self) or reduces_to_zero(self - self.conj())

    # -- comparisons
    def __eq__(self, o):
        if not _is_num(o):
            return NotImplemented
        if _isinf(o):
            return False
        return SymBool.make('eq', self - o)

    def __ne__(self, o):
        if not _is_num(o):
            return NotImplemented
        if _isinf(o):
            return True
        r = SymBool.make('eq', self - o)
        return (not r) if isinstance(r, bool) else ~r

    def __lt__(self, o):
        if not _is_num(o):
            return NotImplemented
        if _isinf(o):
            return o > 0
        if _tiny(o):
            return SymBool.make('le' if o > 0 else 'lt', self)
        return SymBool.make('lt', self - o)

    def __le__(self, o):
        if not _is_num(o):
            return NotImplemented
        if _isinf(o):
            return o > 0
        if _tiny(o):
            return SymBool.make('le' if o > 0 else 'lt', self)
        return SymBool.make('le', self - o)

    def __gt__(self, o):
        if not _is_num(o):
            return NotImplemented
        if _isinf(o):
            return o < 0
        if _tiny(o):
            return SymBool.make('lt' if o > 0 else 'le', -self)
        return SymBool.make('lt', lift(o) - self)

    def __ge__(self, o):
        if not _is_num(o):
            return NotImplemented
        if _isinf(o):
            return o < 0
        if _tiny(o):
            return SymBool.make('lt' if o > 0 else 'le', -self)
        return SymBool.make('le', lift(o) - self)

    def __hash__(self):
        return hash((self.n.key(), frozenset(self.d.items())))

    def __bool__(self):
        if self.is_zero():
            return False
        if self.is_const():
            return True
        return bool(self != 0)

    def __float__(self):
        if self.is_const():
            v = self.value()
            if isinstance(v, complex):
                raise Unsupported('float() of a complex constant')
            return float(v)
        raise Unsupported(f'float() of a symbolic value {show(self)[:120]}')

    def __complex__(self):
        if self.is_const():
            return complex(self.value())
        raise Unsupported('complex() of a symbolic value')

    def __int__(self):
        return to_int(self)

    def __trunc__(self):
        return to_int(self)

    def __round__(self, nd=None):
        return concretize(around(self)) if not nd else around(self * 10 ** nd) / 10 ** nd

    def __floor__(self):
        return concretize(floor(self))

    def __ceil__(self):
        return -concretize(floor(-self))

    def __index__(self):
        if self.is_const():
            v = self.value()
            if float(v).is_integer():
                return int(v)
        raise TypeError('symbolic value used as an index')

    def __format__(self, spec):
        return show(self, 3)

    def item(self):
        return self

    def copy(self):
        return self

    def squeeze(self, *a):
        return self

    def astype(self, dt, **kw):
        if np.issubdtype(np.dtype(dt), np.integer):
            return to_int(self)
        return self

    @property
    def dtype(self):
        return np.dtype(object)

    @property
    def T(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _unit_ids():
    return {a.id for a in REG.atoms if a.kind == 'unit'}


def _no_complex(s):
    units = _unit_ids()
    for m in s.n.d:
        if m & 1:
            return False
    if units:
        for m in s.n.d:
            for k, _ in decode(m):
                if k in units:
                    return False
        for f in s.d:
            if REG.factor_list[f].atoms() & units:
                return False
    return True


def div_by_poly(num, d, p):
    """num / (prod d) / p with p free of I, sqrt2 and ruled atoms"""
    d = dict(d)
    mins = P.min_exponents(p)
    shift = 0
    for k, e in mins.items():
        a = REG.atoms[k]
        if a.inv or e < 0:
            m = mono(k, e)
            p = p.mul_mono(-m)
            shift -= m
    if shift:
        num = num.mul_mono(shift)
    if p.is_const():
        return simp(S(num.scale(1 / p.const_value()), d))
    # primitive part
    p.norm()
    from math import gcd
    g = 0
    for c in p.d.values():
        g = gcd(g, c)
    lead = p.d[max(p.d)]
    sg = -1 if lead < 0 else 1
    content = Fraction(sg * g, p.q)
    prim = Poly({k: c // (sg * g) for k, c in p.d.items()}, 1, False)
    num = num.scale(1 / content)
    # known factors of prim?
    for f, fp in enumerate(REG.factor_list):
        if len(fp.d) <= len(prim.d) * 4 and len(prim.d) <= 3000:
            while True:
                if prim.is_const():
                    break
                if len(fp.d) == 1:  # a monomial divides any Laurent polynomial: only what is there
                    mins = P.min_exponents(prim)
                    if any(mins.get(k, 0) < e for k, e in P.decode(next(iter(fp.d)))):
                        break
                q = P.exact_div(prim, fp)
                if q is None:
                    break
                prim = q
                d[f] = d.get(f, 0) + 1
    if prim.is_const():
        return simp(S(num.scale(1 / prim.const_value()), d))
    if len(prim.d) <= 60 and len(prim.atoms()) <= 14:
        fs = factor_poly(prim)
    else:
        fs = [(prim, 1)]
    for fp, e in fs:
        if fp.is_const():
            num = num.scale(1 / (fp.const_value() ** e))
            continue
        f = factor_id(fp)
        d[f] = d.get(f, 0) + e
    return simp(S(num, d))


_FACTOR_CACHE = {}


def factor_poly(p):
    """irreducible factorisation over Q of a rule-free polynomial (nonneg exponents); sympy"""
    key = p.key()
    r = _FACTOR_CACHE.get(key)
    if r is not None:
        return r
    import sympy
    ats = sorted(p.atoms())
    if len(p.d) == 1:
        (m, c), = p.d.items()
        out = [(Poly({mono(k): 1}), e) for k, e in decode(m)]
        out.append((Poly.const(Fraction(c, p.q)), 1))
        return out
    syms = sympy.symbols(['x%d' % k for k in ats])
    idx = {k: i for i, k in enumerate(ats)}
    rep = {}
    for m, c in p.d.items():
        e = [0] * len(ats)
        for k, ee in decode(m):
            e[idx[k]] = ee
        rep[tuple(e)] = c
    sp = sympy.Poly.from_dict(rep, *syms)
    c, fl = sp.factor_list()
    out = []
    cc = Fraction(int(c.p), int(c.q)) / p.q if hasattr(c, 'p') else Fraction(int(c)) / p.q
    for g, e in fl:
        d = {}
        for ex, co in g.terms():
            m = 0
            for i, ee in enumerate(ex):
                if ee:
                    m += mono(ats[i], ee)
            d[m] = int(co)
        q = Poly(d)
        lead = q.d[max(q.d)]
        if lead < 0:
            q = -q
            if e % 2:
                cc = -cc
        out.append((q, e))
    if cc != 1:
        out.append((Poly.const(cc), 1))
    _FACTOR_CACHE[key] = out
    return out


SIMP_LIMIT = 4000


def simp(s):
    if not s.n.d:
        return S(ZERO)
    if not s.d:
        return s
    n, d = s.n, dict(s.d)
    if len(n.d) <= SIMP_LIMIT:
        for f in list(d):
            fp = REG.factor_list[f]
            while d.get(f, 0) > 0:
                q = P.exact_div(n, fp)
                if q is None:
                    break
                q.r = n.r
                n = q
                d[f] -= 1
            if d.get(f) == 0:
                del d[f]
    return S(n, d)


def show(s, lim=12):
    def ps(p):
        out = []
        for i, (m, c) in enumerate(p.d.items()):
            if i >= lim:
                out.append('...(%d terms)' % len(p.d))
                break
            t = '*'.join((REG.atoms[k].name + ('^%d' % e if e != 1 else '')) for k, e in decode(m))
            out.append(f'{Fraction(c, p.q)}' + ('*' + t if t else ''))
        return ' + '.join(out) or '0'
    r = ps(s.n)
    if s.d:
        r = f'({r})/(' + '*'.join(f'({ps(REG.factor_list[f])})' + (f'^{e}' if e != 1 else '') for f, e in s.d.items()) + ')'
    return r


# ----------------------------------------------------------------------------- constructors of atoms
def real_atom(name, pos=False, inv=False, lo=None, hi=None):
    a = REG.get(('var', name), name=name, kind='real', pos=pos, inv=inv or pos, defn=('var',), lo=lo, hi=hi, base=True)
    return S(Poly({mono(a.id): 1}))


def sincos_atoms(name):
    """(cos x, sin x) for a half-angle x in the open first quadrant, rationally parametrised by t = tan(x/2) in (0, 1)"""
    a = REG.get(('qt', name), name='t_' + name, kind='real', pos=True, inv=True, defn=('qt', name), base=True)
    t = S(Poly({mono(a.id): 1}))
    d = 1 + t * t
    return (1 - t * t) / d, 2 * t / d


def _ratio(x, den=4):
    """x as k/den exactly (within rounding) or None"""
    v = x * den
    r = round(v)
    return r if abs(v - r) < 1e-12 * max(1, abs(v)) else None


ZETA8 = None


def unit_const(frac_turns8):
    """exp(i*pi*k/4)"""
    k = frac_turns8 % 8
    half = Poly({P.S_BIT: 1}, 2)
    tab = [ONE, half + half * P.I_P, P.I_P, -half + half * P.I_P, -ONE, -half - half * P.I_P, -P.I_P, half - half * P.I_P]
    return S(tab[k])


def exp_i_const(c):
    k = _ratio(c / math.pi, 4)
    if k is not None and abs(c) < 1e6:
        return unit_const(k)
    z = cmath.exp(1j * c)
    return lift(z)


def unit_of_mono(m, q):
    """exp(i*q*m) for a real monomial m (product of real atoms) and rational/float q"""
    dec = decode(m)
    if len(dec) == 1 and dec[0][1] == 1:
        a = REG.atoms[dec[0][0]]
        if a.unit is not None:
            if float(q).is_integer():
                return upow(a.unit, int(q))
            if a.defn and a.defn[0] == 'twopik':
                pass
            elif float(2 * q).is_integer():
                # half-integer multiple of a derived angle: principal half-angle unit value
                h = half_unit(a)
                return upow(h, int(2 * q))
            else:
                raise Unsupported(f'fractional multiple {q} of derived angle {a.name}')
    ent = REG.expmap.get((m, 'unit'))
    if ent is None:
        q0 = Fraction(1) if _ratio(float(q), 4) is not None else q
        nm = '*'.join(REG.atoms[k].name + (f'^{e}' if e != 1 else '') for k, e in dec)
        a = REG.get(('unit', m, q0), name=f'e4i[{nm}]', kind='unit', inv=True, defn=('unit', m, q0))
        ent = REG.expmap[(m, 'unit')] = (q0, a)
    q0, a = ent
    k = _ratio(float(q / q0), 4)
    if k is None:
        a = REG.get(('unit', m, q), name=f'e4i[{m}*{float(q)}]', kind='unit', inv=True, defn=('unit', m, q))
        return S(Poly({mono(a.id, 4): 1}))
    return S(Poly({mono(a.id, k): 1} if k else {0: 1}))


def half_unit(a):
    """exp(i*a/2) for a derived angle atom a in (-pi, pi] (real part >= 0)"""
    u = a.unit
    if u.is_const():
        return lift(cmath.exp(1j * cmath.phase(u.value()) / 2))
    if a.defn[0] != 'mod2pi':
        c2 = rationalize((u.real + 1) / 2)
        if _no_complex(c2):
            c = sqrt(c2)
            if c.is_zero():
                return S(P.I_P)
            return c + S(P.I_P) * (u.imag / (2 * c))     # sin(a/2) = sin(a) / (2 cos(a/2))
    h = REG.get(('half', a.id), name=f'e^i({a.name})/2', kind='unit', inv=True, defn=('half', a.id, u))
    return S(Poly({mono(h.id): 1}))


def rationalize(s):
    """the same value with real denominators"""
    if not s.d or all(_no_complex_poly(REG.factor_list[f]) for f in s.d):
        return s
    out = S(s.n)
    keep = {}
    for f, e in s.d.items():
        fp = S(REG.factor_list[f])
        if _no_complex_poly(fp.n) or fp.is_real():
            keep[f] = e
        else:
            cj = fp.conj()
            out = out * cj ** e
            nn = fp * cj
            for _ in range(e):
                out = S(out.n, out.d)
                out = div_by_poly(out.n, out.d, nn.n) if not nn.d else out / nn
    return S(out.n, {**out.d, **{f: out.d.get(f, 0) + e for f, e in keep.items()}})


def _no_complex_poly(p):
    us = _unit_ids()
    return not any(k == 0 or k in us for k in p.atoms())


def half_parts(s):
    """values free of reducible half-angle powers (h^2 = e^(i a)) whose vanishing implies s == 0"""
    hs = [k for k in s.n.atoms() if REG.atoms[k].defn and REG.atoms[k].defn[0] == 'half']
    if not hs or s.is_zero():
        return [s]
    k = max(hs)
    u = REG.atoms[k].defn[2]
    parts = {}
    for m, c in s.n.d.items():
        e = 0
        for kk, ee in decode(m):
            if kk == k:
                e = ee
        parts.setdefault(e, {})[m - mono(k, e) if e else m] = c
    out = []
    for par in (0, 1):
        tot = S(ZERO)
        for e, d in parts.items():
            if e % 2 == par:
                q = Poly(d, s.n.q, s.n.r)
                tot = tot + S(q) * upow(u, (e - par) // 2)
        out += half_parts(S(tot.n))
    return out


def half_reduce(s):
    """the same value with every half-angle unit at power 0 or 1"""
    hs = [k for k in s.n.atoms() if REG.atoms[k].defn and REG.atoms[k].defn[0] == 'half']
    for k in sorted(hs, reverse=True):
        u = REG.atoms[k].defn[2]
        parts = {}
        for m, c in s.n.d.items():
            e = 0
            for kk, ee in decode(m):
                if kk == k:
                    e = ee
            parts.setdefault(e, {})[m - mono(k, e) if e else m] = c
        if set(parts) <= {0, 1}:
            continue
        tot = S(ZERO)
        for e, d in parts.items():
            q = S(Poly(d, s.n.q, s.n.r)) * upow(u, e // 2)
            tot = tot + (q * S(Poly({mono(k): 1})) if e % 2 else q)
        for f, e in s.d.items():
            tot = div_by_poly(tot.n, {**tot.d}, REG.factor_list[f] ** e)
        s = tot
    return s


def has_half(s):
    return any(REG.atoms[k].defn and REG.atoms[k].defn[0] == 'half' for k in s.n.atoms())


def reduces_to_zero(s):
    return s.is_zero() or (has_half(s) and all(q.is_zero() for q in half_parts(s)))


def upow(u, k):
    if k >= 0:
        return u ** k
    return u.conj() ** (-k)


def exp_of_mono(m, q):
    ent = REG.expmap.get((m, 'exp'))
    if ent is None:
        nm = '*'.join(REG.atoms[k].name + (f'^{e}' if e != 1 else '') for k, e in decode(m))
        q0 = q / 2
        a = REG.get(('exp', m, q0), name=f'exp[{nm}]', kind='real', pos=True, inv=True, defn=('exp', m, q0))
        ent = REG.expmap[(m, 'exp')] = (q0, a)
    q0, a = ent
    k = _ratio(float(q / q0), 1)
    if k is None:
        a = REG.get(('exp', m, q), name=f'exp[{m}*{float(q)}]', kind='real', pos=True, inv=True, defn=('exp', m, q))
        return S(Poly({mono(a.id): 1}))
    return S(Poly({mono(a.id, k): 1} if k else {0: 1}))


def exp(s):
    s = lift(s)
    if s.d:
        # rational exponent: opaque
        re, im = s.real, s.imag
        out = S(ONE)
        if not im.is_zero():
            out = out * unit_of_value(im)
        if not re.is_zero():
            a = REG.get(('expS', hash(re)), name='exp(..)', kind='real', pos=True, inv=True, defn=('expS', re))
            out = out * S(Poly({mono(a.id): 1}))
        return out
    out = S(ONE)
    cre = 0.0
    cim = 0.0
    groups = {}
    for m, c in s.n.d.items():
        isI = m & 1
        m0 = m - 1 if isI else m
        f = Fraction(c, s.n.q)
        if m0 & P.S_BIT:
            m1 = m0 - P.S_BIT
            if m1 == 0:
                v = float(f) * _R2
                if isI:
                    cim += v
                else:
                    cre += v
                continue
        if m0 == 0:
            if isI:
                cim += float(f)
            else:
                cre += float(f)
            continue
        for k, _ in decode(m0):
            if REG.atoms[k].kind == 'unit':
                return _exp_general(s)
        groups[(isI, m0)] = f
    if cim:
        out = out * exp_i_const(cim)
    if cre:
        out = out * lift(math.exp(cre))
    for (isI, m0), f in groups.items():
        out = out * (unit_of_mono(m0, f) if isI else exp_of_mono(m0, f))
    return out


def _exp_general(s):
    re, im = s.real, s.imag
    out = S(ONE)
    if not im.is_zero():
        out = unit_of_value(im)
    if not re.is_zero():
        a = REG.get(('expS', hash(re)), name='exp(..)', kind='real', pos=True, inv=True, defn=('expS', re))
        out = out * S(Poly({mono(a.id): 1}))
    return out


def unit_of_value(im):
    a = REG.get(('unitS', hash(im)), name='e^i(..)', kind='unit', inv=True, defn=('unitS', im))
    return S(Poly({mono(a.id): 1}))


def cos(s):
    s = lift(s)
    e = exp(S(P.I_P) * s)
    return (e + e.conj()) / 2


def sin(s):
    s = lift(s)
    e = exp(S(P.I_P) * s)
    return (e - e.conj()) / S(P.I_P.scale(2))


def tan(s):
    return sin(s) / cos(s)


def tanh(s):
    s = lift(s)
    if s.is_const():
        return lift(math.tanh(s.value()))
    neg = False
    # odd function: canonical sign
    lead = s.n.d[max(s.n.d)]
    if lead < 0:
        s, neg = -s, True
    a = REG.get(('tanh', hash(s)), name=f'tanh({show(s, 3)})', kind='real', defn=('tanh', s), lo=-1, hi=1)
    r = S(Poly({mono(a.id): 1}))
    return -r if neg else r


def _real_power(b, e):
    """b ** e for positive b"""
    e = lift(e)
    if not (b.is_real() and e.is_real()):
        raise Unsupported('complex power')
    if b.is_const():
        if b.value() <= 0:
            raise Unsupported('symbolic exponent of a number that is not positive')
    elif CTX.sign(b) <= 0 and not CTX.decide(b > 0):
        raise Unsupported('symbolic exponent of a number that is not positive')
    return exp(e * log(b))


def log(s):
    s = lift(s)
    if s.is_const():
        return lift(math.log(s.value()))
    a = REG.get(('log', hash(s)), name='log(..)', kind='real', defn=('log', s))
    return S(Poly({mono(a.id): 1}))


def arcsin_atom(s):
    s = lift(s)
    return lift(math.pi / 2) - arccos(s)


# --- square roots, moduli, angles
def _perfect_square_const(f):
    """sqrt of a nonneg Fraction as (Fraction, has_sqrt2) or None"""
    def isq(n):
        r = math.isqrt(n)
        return r if r * r == n else None
    a, b = isq(f.numerator), isq(f.denominator)
    if a is not None and b is not None:
        return Poly.const(Fraction(a, b))
    g = f / 2
    a, b = isq(g.numerator), isq(g.denominator)
    if a is not None and b is not None:
        return P.SQ2_P.scale(Fraction(a, b))
    return None


def sqrt(s):
    """principal square root of a real nonnegative value (complex arguments only when constant)"""
    s = lift(s)
    if s.is_zero():
        return S(ZERO)
    if s.is_const():
        v = s.value()
        if isinstance(v, complex) or v < 0:
            return lift(cmath.sqrt(v))
        if s.n.is_const():
            r = _perfect_square_const(s.n.const_value())
            if r is not None:
                return S(r)
        return lift(math.sqrt(v))
    s = rationalize(half_reduce(s))
    # total = num * odd factors / even square
    num = s.n
    dout = {}
    for f, e in s.d.items():
        if e % 2:
            num = num * REG.factor_list[f]
            e += 1
        dout[f] = e // 2
    out = sqrt_poly(num)
    for f, e in dout.items():
        fp = REG.factor_list[f]
        sg = CTX.sign(S(fp))
        if sg < 0:
            if e % 2:
                out = -out
        out = simp(S(out.n, {**out.d, f: out.d.get(f, 0) + e}))
    return out


def sqrt_poly(p):
    """sqrt of a polynomial that is real and >= 0 on the current path"""
    ats = p.atoms()
    free = not any(k < 2 or k in P.RULES for k in ats)
    shift = {}
    # Laurent/real monomial content
    mins = P.min_exponents(p)
    m = 0
    root = S(ONE)
    for k, e in mins.items():
        a = REG.atoms[k]
        if k in P.RULES:
            continue
        if a.pos and e:
            ee = e if e % 2 == 0 else e - 1
            if ee:
                m += mono(k, ee)
                root = root * S(Poly({mono(k, ee // 2): 1}))
    if m:
        p = p.mul_mono(-m)
    if p.is_const():
        return root * sqrt(S(p))
    odd = ONE
    root0 = root
    if free and len(p.d) <= 80:
        mins = P.min_exponents(p)
        m = sum(mono(k, e) for k, e in mins.items())
        core = p.mul_mono(-m) if m else p
        fs = factor_poly(core)
        for k, e in mins.items():
            fs = fs + [(Poly({mono(k): 1}), e)]
        c = Fraction(1)
        negs = 1
        cplx = []
        for fp, e in fs:
            if fp.is_const():
                c *= fp.const_value() ** e
                continue
            if not S(fp).is_real():
                cplx.append((fp, e))
                continue
            h = e // 2
            if e % 2:
                odd = odd * fp if e > 0 or True else odd
            if h:
                if h % 2 == 0:
                    root = root * (S(fp) ** h)
                else:
                    root = root * (absreal(S(fp)) ** h)
        if cplx:
            cabs = _abs_of_factors(cplx)
            if cabs is None:
                return root0 * _opaque_sqrt(p)
            root = root * cabs
            c = abs(c)      # |p| = |c| * |complex part| * |real part| and p >= 0
        if odd.is_const():
            return root * sqrt(lift(c))
        # split the odd part into positive factors
        for fp, e in fs:
            if fp.is_const() or e % 2 == 0 or not S(fp).is_real():
                continue
            sg = CTX.sign(S(fp))
            if sg > 0:
                root = root * _sqrt_atom(fp)
            elif sg < 0:
                root = root * _sqrt_atom(-fp)
                c = -c if not cplx else c
            else:
                raise Unsupported('sqrt: factor of undetermined sign')
        if c < 0:
            raise Unsupported('sqrt of a negative value')
        return root * sqrt(lift(c))
    # ruled atoms (or large): try a perfect square via known structure, else an opaque root
    r = ruled_square_root(p)
    if r is not None:
        return root * absreal(S(r))
    return root * _opaque_sqrt(p)


def _opaque_sqrt(p):
    c = content(p)
    cs = _perfect_square_const(c)
    if cs is not None:
        return S(cs) * _sqrt_atom(p.scale(1 / c))
    return _sqrt_atom(p)


def maximum_of(items):
    """the largest of real values; one opaque value (with its defining constraints) when several symbolic ones are compared"""
    xs = []
    for x in map(lift, items):
        if not any((x - y).is_zero() for y in xs):
            xs.append(x)
    if len(xs) == 1:
        return xs[0]
    if all(x.is_const() for x in xs):
        return max(xs, key=lambda x: x.value())
    def nn(x):
        return len(x.n.d) == 1 and not x.d and next(iter(x.n.d.values())) > 0 and all(REG.atoms[k].pos for k, e in decode(next(iter(x.n.d))))
    pos = any(CTX.positive(x) for x in xs)
    if not pos and all(nn(x) for x in xs):
        pos = CTX.positive(sum((x * x for x in xs), S(Poly({}))))        # a norm: zero only if every entry is
    key = ('max', frozenset((x.n.key(), frozenset(x.d.items())) for x in xs))
    a = REG.get(key, name='max(%s)' % ','.join(show(x, 3) for x in xs), kind='real', pos=pos, inv=pos, defn=('max', xs))
    return S(Poly({mono(a.id): 1}))


def _strip_units(p):
    mins = P.min_exponents(p)
    m = sum(mono(k, e) for k, e in mins.items() if REG.atoms[k].kind == 'unit')
    return (p.mul_mono(-m), m) if m else (p, 0)


def _abs_of_factors(fs):
    """sqrt(|prod f^e|) for complex polynomials f (units and I allowed); None if it cannot be expressed"""
    root = S(ONE)
    left = []
    for fp, e in fs:
        if len(fp.d) == 1:          # unit monomial: modulus one
            continue
        left.append([fp, e])
    while left:
        fp, e = left.pop(0)
        if e < 0:
            return None
        cj = _strip_units(S(fp).conj().n)[0]
        base, m0 = _strip_units(fp)
        partner = None
        for q in left:
            b = _strip_units(q[0])[0]
            if b == cj or b == cj.scale(-1):
                partner = q
                break
        selfc = base == cj or base == cj.scale(-1)
        if partner is not None and not selfc:
            k = min(e, partner[1])
            N = (S(fp) * S(fp).conj()).n
            # |f g|^(k/2) = N^(k/2)
            if k // 2:
                root = root * S(N) ** (k // 2)
            if k % 2:
                root = root * _sqrt_atom(N)
            partner[1] -= k
            if partner[1] == 0:
                left.remove(partner)
            if e - k:
                left.append([fp, e - k])
            continue
        if selfc:
            # f * mono^{-1/2} is real or imaginary
            ratio = P.exact_div(fp, S(fp).conj().n)   # unit monomial up to sign
            if ratio is None or len(ratio.d) != 1:
                return None
            (m, c), = ratio.d.items()
            dec = decode(m)
            if any(x % 2 for _, x in dec):
                return None
            r = S(fp.mul_mono(-sum(mono(k, x // 2) for k, x in dec)))
            if c < 0:
                r = r * S(P.I_P)
            if not r.is_real():
                return None
            r = absreal(r)
            if e // 2:
                root = root * r ** (e // 2)
            if e % 2:
                root = root * _sqrt_atom(r.n) if not r.d else root * sqrt(r)
            continue
        if e % 2 == 0:
            N = (S(fp) * S(fp).conj()).n
            if (e // 2) // 2:
                root = root * S(N) ** ((e // 2) // 2)
            if (e // 2) % 2:
                root = root * _sqrt_atom(N)
            continue
        return None
    return root


def content(p):
    from math import gcd
    p.norm()
    g = 0
    for c in p.d.values():
        g = gcd(g, c)
    return Fraction(g, p.q)


def ruled_square_root(p, depth=0):
    """q with q^2 = p modulo the rules, for one- and two-term patterns"""
    if len(p.d) == 1:
        (m, c), = p.d.items()
        rt = _perfect_square_const(Fraction(c, p.q)) if c > 0 else None
        if rt is None:
            return None
        if all(e % 2 == 0 for k, e in decode(m)):
            q = Poly({sum(mono(k, e // 2) for k, e in decode(m)): 1}) * rt
            return q
        return None
    # rewrite rule-atom squares back: p == rule(k)*cofactor^2 ?
    for k, rule in list(P.RULES.items()):
        if any(kk in P.RULES for kk in rule.atoms()):
            continue
        if depth > 6 or rule.is_const():
            continue
        q = P.exact_div(p, rule)
        if q is not None:
            r = ruled_square_root(q, depth + 1) if len(q.d) >= 1 else None
            if q.is_const():
                rr = _perfect_square_const(q.const_value()) if q.const_value() > 0 else None
                r = rr
            if r is not None:
                r2 = r * Poly({mono(k): 1}, 1, True)
                r2.r = True
                return r2
    if not p.r and len(p.d) <= 80 and not any(k < 2 or k in P.RULES for k in p.atoms()):
        fs = factor_poly(p)
        if all(fp.is_const() or e % 2 == 0 for fp, e in fs):
            out = ONE
            for fp, e in fs:
                if fp.is_const():
                    v = fp.const_value() ** e
                    rt = _perfect_square_const(v) if v > 0 else None
                    if rt is None:
                        return None
                    out = out * rt
                else:
                    out = out * fp ** (e // 2)
            return out
    return None


def _sqrt_atom(p):
    key = ('sqrt',) + p.key()
    a = REG.get(key, name=f'sqrt({show(S(p), 4)})', kind='real', pos=True, defn=('sqrt', S(p)))
    if a.id not in P.RULES:
        P.RULES[a.id] = p
    return S(Poly({mono(a.id): 1}, 1, True))


def absreal(s):
    """|s| for real s"""
    sg = CTX.sign(s)
    if sg > 0:
        return s
    if sg < 0:
        return -s
    if CTX.decide(s >= 0):
        return s
    return -s


def absval(s):
    s = lift(s)
    if s.is_zero():
        return s
    if s.is_const():
        v = s.value()
        if not isinstance(v, complex):
            return s if v >= 0 else -s
        return sqrt(s * s.conj())
    if s.is_real():
        s = s.real
        if not s.d and len(s.n.d) == 1:
            (m, c), = s.n.d.items()
            if all(REG.atoms[k].pos or k == 1 for k, _ in decode(m)):
                return s if c > 0 else -s
        return absreal(s)
    if not s.d and len(s.n.d) == 1:
        (m, c), = s.n.d.items()
        mm = 0
        ok = True
        for k, e in decode(m):
            a = REG.atoms[k]
            if a.kind in ('I', 'unit'):
                continue
            if a.pos or k == 1:
                mm += mono(k, e)
            else:
                ok = False
        if ok:
            return S(Poly({mm: abs(c)}, s.n.q, s.n.r))
    return sqrt(s * s.conj())


def angle_atom(key, name, unit, lo=-math.pi, hi=math.pi, defn=None):
    a = REG.get(key, name=name, kind='real', defn=defn, lo=lo, hi=hi)
    if a.unit is None:
        a.unit = unit
    return S(Poly({mono(a.id): 1}))


def angle(z):
    """arg(z); arg(0) = 0"""
    z = lift(z)
    if z.is_zero():
        return S(ZERO)
    if z.is_const():
        v = complex(z.value())
        # exact multiples of pi/4
        return lift(cmath.phase(v))
    if z.is_real():
        z = z.real
        sg = CTX.sign(z)
        if sg == 0:
            if CTX.decide(z >= 0):
                sg = 1
            else:
                sg = -1
        return S(ZERO) if sg > 0 else lift(math.pi)
    if not CTX.nonzero(z):
        if not CTX.decide_nonzero(z):
            return S(ZERO)
    u = z / absval(z)
    # a monomial unit e^{i alpha}: alpha is only defined modulo 2 pi -> still an opaque principal value
    return angle_atom(('arg', hash(u)), f'arg({show(z, 3)})', u, defn=('arg', z))


def arctan2(y, x):
    y, x = lift(y), lift(x)
    if y.is_const() and x.is_const():
        return lift(math.atan2(y.value(), x.value()))
    if y.is_zero():
        sg = CTX.sign(x)
        if sg == 0:
            sg = 1 if CTX.decide(x >= 0) else -1
        return S(ZERO) if sg > 0 else lift(math.pi)
    if x.is_zero():
        sg = CTX.sign(y)
        if sg == 0:
            if not CTX.decide_nonzero(y):
                return S(ZERO)
            sg = 1 if CTX.decide(y > 0) else -1
        return lift(math.pi / 2 * sg)
    h = sqrt(x * x + y * y)
    u = x / h + S(P.I_P) * (y / h)
    return angle_atom(('arg', hash(u)), 'atan2(..)', u, defn=('arg', x + S(P.I_P) * y))


def arccos(y):
    y = lift(y)
    if y.is_const():
        return lift(math.acos(max(-1.0, min(1.0, y.value()))))
    s = sqrt(1 - y * y)
    u = y + S(P.I_P) * s
    return angle_atom(('acos', hash(y)), 'acos(..)', u, lo=0, hi=math.pi, defn=('arccos', y))


def floor(s):
    s = lift(s)
    if s.is_const():
        return lift(math.floor(s.value()))
    lo, hi = None, None
    a = REG.get(('floor', hash(s)), name=f'floor({show(s, 3)})', kind='int', defn=('floor', s))
    return S(Poly({mono(a.id): 1}))


def around(s):
    s = lift(s)
    if s.is_const():
        v = s.value()
        if isinstance(v, complex):
            return lift(complex(round(v.real), round(v.imag)))
        return lift(float(np.around(v)))
    a = REG.get(('round', hash(s)), name=f'round({show(s, 3)})', kind='int', defn=('round', s))
    return S(Poly({mono(a.id): 1}))


def mod(s, o):
    s = lift(s)
    if isinstance(o, S):
        if not o.is_const():
            raise Unsupported('mod by a symbolic value')
        o = o.value()
    o = float(o)
    if s.is_const():
        return lift(s.value() % o)
    if abs(o - 2 * math.pi) < 1e-12:
        # value = s - 2 pi K, K integer: only integer multiples of the result enter exponentials
        a = REG.get(('mod2pi', hash(s)), name=f'mod2pi({show(s, 3)})', kind='real', defn=('mod2pi', s), lo=0, hi=2 * math.pi)
        if a.unit is None:
            a.unit = exp(S(P.I_P) * s)
        return S(Poly({mono(a.id): 1}))
    return s - o * floor(s / o)


def concretize(s):
    """enumerate the feasible integer values of s by forking"""
    s = lift(s)
    if s.is_const():
        v = s.value()
        return int(v)
    return CTX.pick_int(s)


def to_int(s):
    """int(): truncation towards zero"""
    s = lift(s)
    if s.is_const():
        return int(s.value())
    if not s.d and len(s.n.d) == 1:
        (m, c), = s.n.d.items()
        dec = decode(m)
        if len(dec) == 1 and dec[0][1] == 1 and REG.atoms[dec[0][0]].kind == 'int' and c == s.n.q:
            return CTX.pick_int(s)
    if is_integer_poly(s):
        return CTX.pick_int(s)
    if CTX.decide(s >= 0):
        return CTX.pick_int(floor(s))
    return -CTX.pick_int(floor(-s))


def is_integer_poly(s):
    if s.d or s.n.q != 1:
        return False
    for m in s.n.d:
        for k, e in decode(m):
            if REG.atoms[k].kind != 'int' or e < 0:
                return False
    return True


def int_atom(name, lo, hi):
    a = REG.get(('ivar', name), name=name, kind='int', defn=('var',), lo=lo, hi=hi, base=True)
    return S(Poly({mono(a.id): 1}))


# ----------------------------------------------------------------------------- booleans
class SymBool:
    __slots__ = ('op', 'args')

    def __init__(self, op, args):
        self.op, self.args = op, args

    @staticmethod
    def make(op, s):
        s = lift(s)
        if op != 'eq' and not s.is_real():
            raise Unsupported('order comparison of complex values')
        if s.is_const():
            v = s.value()
            if isinstance(v, complex):
                return False if op == 'eq' else None
            return bool(v == 0 if op == 'eq' else (v < 0 if op == 'lt' else v <= 0))
        return SymBool(op, (s,))

    def __invert__(self):
        if self.op == 'not':
            return self.args[0]
        return SymBool('not', (self,))

    def __and__(self, o):
        if isinstance(o, (bool, np.bool_)):
            return self if o else False
        return SymBool('and', (self, o))

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, np.bool_)):
            return True if o else self
        return SymBool('or', (self, o))

    __ror__ = __or__

    def __xor__(self, o):
        return (self & ~_b(o)) | (~self & o)

    def __bool__(self):
        return CTX.decide(self)

    # arithmetic on booleans (mask * x, 1 - mask, sum(mask))
    def _num(self):
        return lift(1) if bool(self) else lift(0)

    def __mul__(self, o):
        return self._num() * o
    __rmul__ = __mul__

    def __add__(self, o):
        return self._num() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return o - self._num()

    def __int__(self):
        return 1 if bool(self) else 0

    __index__ = __int__

    def astype(self, dt, **kw):
        return 1 if bool(self) else 0

    def __repr__(self):
        return f'{self.op}{self.args}'

    def __hash__(self):
        return id(self)


def _b(o):
    return SymBool('not', (SymBool('not', (o,)),)) if isinstance(o, (bool, np.bool_)) else o


# ----------------------------------------------------------------------------- numeric evaluation
class NumEnv:
    """base atom name -> float; evaluates any S numerically (used to validate the encoding and to replay)"""

    def __init__(self, vals):
        self.vals = vals
        self.memo = {}

    def atom(self, k):
        v = self.memo.get(k)
        if v is None:
            v = self.memo[k] = self._atom(REG.atoms[k])
        return v

    def _mono_real(self, m):
        v = 1.0
        for k, e in decode(m):
            v *= self.atom(k) ** e
        return v

    def _atom(self, a):
        if a.kind == 'I':
            return 1j
        if a.kind == 'sqrt2':
            return _R2
        d = a.defn
        t = d[0]
        if t == 'var':
            return self.vals[a.name]
        if t == 'qt':
            return math.tan(self.vals[d[1]] / 2)
        if t == 'unit':
            return cmath.exp(1j * self._mono_real(d[1]) * float(d[2]) / 4)
        if t == 'half':
            return cmath.exp(0.5j * self.atom(d[1]))
        if t == 'exp':
            return math.exp(float(d[2]) * self._mono_real(d[1]))
        if t == 'sqrt':
            v = self.ev(d[1])
            return math.sqrt(max(v.real, 0.0))
        if t == 'arg':
            v = self.ev(d[1])
            return cmath.phase(complex(v)) if abs(v) > 0 else 0.0
        if t == 'arccos':
            return math.acos(max(-1.0, min(1.0, self.ev(d[1]).real)))
        if t == 'mod2pi':
            return self.ev(d[1]).real % (2 * math.pi)
        if t == 'floor':
            return math.floor(self.ev(d[1]).real)
        if t == 'round':
            return float(np.around(self.ev(d[1]).real))
        if t == 'tanh':
            return math.tanh(self.ev(d[1]).real)
        if t == 'log':
            return math.log(self.ev(d[1]).real)
        if t == 'expS':
            return math.exp(self.ev(d[1]).real)
        if t == 'unitS':
            return cmath.exp(1j * self.ev(d[1]).real)
        if t == 'fn':
            return d[1](self)
        if t == 'max':
            return max(self.ev(x).real for x in d[1])
        raise Unsupported(f'eval {t}')

    def poly(self, p):
        z = 0
        for m, c in p.d.items():
            v = float(Fraction(c, p.q)) if p.q != 1 else float(c)
            for k, e in decode(m):
                v = v * self.atom(k) ** e
            z += v
        return z

    def ev(self, s):
        s = lift(s)
        v = self.poly(s.n)
        for f, e in s.d.items():
            v = v / self.poly(REG.factor_list[f]) ** e
        return complex(v)

    def test(self, b, tol=0.0):
        if isinstance(b, (bool, np.bool_)):
            return bool(b)
        if b.op == 'not':
            return not self.test(b.args[0], tol)
        if b.op == 'and':
            return all(self.test(x, tol) for x in b.args)
        if b.op == 'or':
            return any(self.test(x, tol) for x in b.args)
        v = self.ev(b.args[0])
        if b.op == 'eq':
            return abs(v) <= max(tol, 1e-12)
        return v.real < 0 if b.op == 'lt' else v.real <= tol


# ----------------------------------------------------------------------------- z3 encoding
class Z3Enc:
    def __init__(self):
        self.vars = {}
        self.cons = []
        self.pows = {}
        self.invs = {}
        self.pending = set()

    def atom(self, k):
        v = self.vars.get(k)
        if v is not None:
            return v
        a = REG.atoms[k]
        if a.kind == 'sqrt2':
            x = z3.Real('sqrt2')
            self.cons += [x > 0, x * x == 2]
            v = (x, None)
        elif a.kind == 'unit':
            x, y = z3.Real(f'u{k}_re'), z3.Real(f'u{k}_im')
            self.cons.append(x * x + y * y == 1)
            v = self.vars[k] = (x, y)
            if a.defn[0] == 'half':
                self.cons.append((y if REG.atoms[a.defn[1]].defn[0] == 'mod2pi' else x) >= 0)
                u = a.defn[2]
                self.cons += [x * x - y * y == self.real(u.real), 2 * x * y == self.real(u.imag)]
        elif a.kind == 'int':
            x = z3.Int(f'a{k}')
            v = (z3.ToReal(x), None)
        else:
            x = z3.Real(f'a{k}')
            v = (x, None)
        self.vars[k] = v
        if a.kind in ('real', 'int'):
            x = v[0]
            if a.pos:
                self.cons.append(x > 0 if a.inv else x >= 0)
            elif a.inv:
                self.cons.append(x != 0)
            if a.lo is not None:
                self.cons.append(x >= _q(a.lo))
            if a.hi is not None:
                self.cons.append(x <= _q(a.hi))
            d = a.defn
            if d[0] == 'sqrt':
                self.cons.append(x * x == self.real(d[1]))
            elif d[0] == 'qt':
                self.cons.append(x < 1)
            elif d[0] == 'floor':
                r = self.real(d[1])
                self.cons += [x <= r, r < x + 1]
            elif d[0] == 'round':
                r = self.real(d[1])
                self.cons += [x - z3.Q(1, 2) <= r, r <= x + z3.Q(1, 2)]
            elif d[0] == 'max':
                rs = [self.real(r) for r in d[1]]
                self.cons += [x >= r for r in rs] + [z3.Or(*[x == r for r in rs])]
            elif d[0] == 'tanh':
                r = self.real(d[1])
                self.cons += [z3.Implies(r > 0, z3.And(x > 0, x < 1)), z3.Implies(r < 0, z3.And(x < 0, x > -1)),
                              z3.Implies(r == 0, x == 0)]
                for (k2, r2) in getattr(self, 'tanhs', []):
                    y = self.vars[k2][0]
                    self.cons += [z3.Implies(r < r2, x < y), z3.Implies(r2 < r, y < x), z3.Implies(r == r2, x == y)]
                self.tanhs = getattr(self, 'tanhs', []) + [(k, r)]
        return v

    def pw(self, k, e):
        key = (k, e)
        v = self.pows.get(key)
        if v is not None:
            return v
        x, y = self.atom(k)
        if e < 0:
            if y is not None:
                r, i = self.pw(k, -e)
                v = (r, -i)
            else:
                iv = self.invs.get(k)
                if iv is None:
                    iv = self.invs[k] = z3.Real(f'inv{k}')
                    self.cons.append(iv * x == 1)
                b = iv
                for _ in range(-e - 1):
                    b = b * iv
                v = (b, None)
        elif y is None:
            b = x
            for _ in range(e - 1):
                b = b * x
            v = (b, None)
        else:
            if e == 1:
                v = (x, y)
            else:
                r, i = self.pw(k, e - 1)
                v = (r * x - i * y, r * y + i * x)
        self.pows[key] = v
        return v

    def poly(self, p):
        re, im = [], []
        for m, c in p.d.items():
            f = z3.Q(c, p.q) if p.q != 1 else z3.RealVal(c)
            rr = []
            cur = None
            isI = False
            for k, e in decode(m):
                if k == 0:
                    isI = True
                    continue
                x, y = self.pw(k, e)
                if y is None:
                    rr.append(x)
                elif cur is None:
                    cur = (x, y)
                else:
                    cur = (cur[0] * x - cur[1] * y, cur[0] * y + cur[1] * x)
            t = f
            for x in rr:
                t = t * x
            if cur is None:
                a, b = t, None
            else:
                a, b = t * cur[0], t * cur[1]
            if isI:
                a, b = (None if b is None else -b), a
            if a is not None:
                re.append(a)
            if b is not None:
                im.append(b)
        return (z3.Sum(re) if re else z3.RealVal(0)), (z3.Sum(im) if im else z3.RealVal(0))

    def real(self, s):
        """z3 term of a real S; introduces an auxiliary variable for a quotient"""
        s = rationalize(s)
        n = self.poly(s.n)[0]
        if not s.d:
            return n
        d = self.den(s)
        q = z3.FreshReal('q')
        self.cons += [q * d == n, d != 0]
        return q

    def den(self, s):
        d = None
        for f, e in s.d.items():
            x = self.poly(REG.factor_list[f])[0]
            for _ in range(e):
                d = x if d is None else d * x
        return d

    def cond(self, b):
        if isinstance(b, (bool, np.bool_)):
            return z3.BoolVal(bool(b))
        if b.op == 'not':
            return z3.Not(self.cond(b.args[0]))
        if b.op == 'and':
            return z3.And(*[self.cond(x) for x in b.args])
        if b.op == 'or':
            return z3.Or(*[self.cond(x) for x in b.args])
        s = b.args[0]
        if b.op != 'eq':
            s = rationalize(s)
        re, im = self.poly(s.n)
        if b.op == 'eq':
            if _no_complex(s):
                return re == 0
            return z3.And(re == 0, im == 0)
        if s.d:
            d = self.den(s)
            self.cons.append(d != 0)
            odd = [f for f, e in s.d.items() if e % 2]
            for f in odd:
                re = re * self.poly(REG.factor_list[f])[0]
        return re < 0 if b.op == 'lt' else re <= 0


def _q(v):
    f = Fraction(v).limit_denominator(10 ** 12) if not isinstance(v, int) else Fraction(v)
    return z3.Q(f.numerator, f.denominator)


# ----------------------------------------------------------------------------- context / path exploration
class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.time = 0.0
        self.branch_queries = 0
        self.forks = 0
        self.lra = 0
        self.nra = 0


class Context:
    def __init__(self):
        self.stats = Stats()
        self.reset_run([])
        self.branch_ms = 1500

    def reset_run(self, prefix):
        self.prefix = list(prefix)
        self.trace = []          # decisions taken: (cond, value)
        self.pending = []        # alternative prefixes discovered in this run
        self.path = []           # list of SymBool (assumptions and decisions)
        self.facts = {}
        self.sign_cache = {}

    # --- solver
    def check(self, extra, timeout=None, want_model=False, path=True, kind='branch'):
        enc = Z3Enc()
        fs = [enc.cond(c) for c in (self.path if path else [])] + [enc.cond(c) for c in extra]
        sol = z3.Solver()
        sol.set('timeout', timeout or self.branch_ms)
        sol.add(*enc.cons)
        sol.add(*fs)
        t = time.time()
        r = sol.check()
        self.stats.time += time.time() - t
        self.stats.queries += 1
        if kind == 'branch':
            self.stats.branch_queries += 1
        res = str(r)
        if r == z3.unknown:
            self.stats.unknown += 1
        elif r == z3.sat:
            self.stats.sat += 1
        else:
            self.stats.unsat += 1
        if want_model:
            return res, (sol.model() if r == z3.sat else None), enc
        return res

    def decide(self, b):
        if isinstance(b, (bool, np.bool_)):
            return bool(b)
        if b.op == 'eq' and not b.args[0].is_real():
            z = b.args[0]
            n2 = half_reduce(z * z.conj())
            if n2.is_const() or self.nonzero(n2) or self.positive(n2):
                return False
            b = SymBool.make('eq', n2)
        k = len(self.trace)
        key = self._bkey(b)
        if key in self.facts:
            return self.facts[key]
        if k < len(self.prefix):
            v = self.prefix[k]
            if not isinstance(v, bool):
                raise Inconclusive('a path met other decisions than the run it continues')
            self.trace.append(v)
        else:
            rt = self.check([b])
            rf = self.check([~b])
            if rt == 'unsat' and rf == 'unsat':
                raise Infeasible()
            if rt == 'unsat':
                self.trace.append(False)  # recorded, so that later runs meet the same decisions in the same order
                self._fact(b, key, False)
                return False
            if rf == 'unsat':
                self.trace.append(True)
                self._fact(b, key, True)
                return True
            v = True
            self.stats.forks += 1
            self.pending.append([x for x in self.trace] + [False])
            self.trace.append(True)
        self.path.append(b if v else ~b)
        self._fact(b, key, v)
        return v

    def _fact(self, b, key, v):
        self.facts[key] = v

    def _bkey(self, b):
        if b.op in ('not', 'and', 'or'):
            return (b.op,) + tuple(self._bkey(x) if isinstance(x, SymBool) else x for x in b.args)
        return (b.op, hash(b.args[0]))

    def decide_nonzero(self, z):
        b = SymBool.make('eq', z)
        if isinstance(b, bool):
            return not b
        if self.nonzero(z):
            return True
        if not z.is_real():
            n2 = half_reduce(z * z.conj())
            if n2.is_const():
                return True
            if self.nonzero(n2) or self.positive(n2):
                return True
            return not self.decide(SymBool.make('eq', n2))
        return not self.decide(b)

    def positive(self, s):
        """s > 0 syntactically: a sum of positive terms with a strictly positive one (denominators likewise)"""
        def syn(p):
            strict = False
            for m, c in p.d.items():
                if c < 0:
                    return False
                st = True
                for kk, e in decode(m):
                    a = REG.atoms[kk]
                    if kk == 0 or a.kind == 'unit':
                        return False
                    if kk == 1:
                        continue
                    if not (a.pos or e % 2 == 0):
                        return False
                    if not a.inv:
                        st = False
                strict = strict or st
            return strict
        return syn(s.n) and all(syn(REG.factor_list[f]) or e % 2 == 0 for f, e in s.d.items())

    def nonzero(self, z):
        """syntactic: a monomial in invertible atoms"""
        z = lift(z)
        if len(z.n.d) == 1:
            (m, c), = z.n.d.items()
            return all(REG.atoms[k].inv or REG.atoms[k].kind in ('I', 'sqrt2', 'unit') for k, _ in decode(m))
        return False

    def sign(self, s):
        """+1 / -1 when s > 0 / s < 0 (or >= / <=) is established on this path, 0 when not known"""
        s = lift(s)
        if s.is_const():
            v = s.value()
            return 1 if v >= 0 else -1
        k = (hash(s), len(self.path))
        if k in self.sign_cache:
            return self.sign_cache[k]
        r = self._sign(s)
        self.sign_cache[k] = r
        return r

    def _sign(self, s):
        def syn(p):
            sg = None
            for m, c in p.d.items():
                for kk, e in decode(m):
                    a = REG.atoms[kk]
                    if kk == 0 or a.kind == 'unit':
                        return 0
                    if not (a.pos or kk == 1 or e % 2 == 0):
                        return 0
                t = 1 if c > 0 else -1
                if sg is None:
                    sg = t
                elif sg != t:
                    return 0
            return sg or 0
        sg = syn(s.n)
        if sg:
            for f, e in s.d.items():
                if e % 2:
                    sg *= syn(REG.factor_list[f])
            if sg:
                return sg
        if not s.is_real():
            raise Unsupported('sign of a complex value')
        s = s.real
        if self.check([s < 0]) == 'unsat':
            return 1
        if self.check([s > 0]) == 'unsat':
            return -1
        return 0

    def assume(self, b):
        if isinstance(b, (bool, np.bool_)):
            if not b:
                raise Infeasible()
            return
        self.path.append(b)
        self._fact(b, self._bkey(b), True)

    def pick_int(self, s):
        """enumerate feasible integers for s: the solver proposes a value, we fork on s == value"""
        key = ('pick', hash(s))
        if key in self.facts:
            return self.facts[key]
        n = 0
        while True:
            n += 1
            if n > 60:
                raise Unsupported('too many integer values')
            k = len(self.trace)
            if k < len(self.prefix):
                if isinstance(self.prefix[k], bool):
                    raise Inconclusive('a path met other decisions than the run it continues')
                v, take = self.prefix[k]
                self.trace.append((v, take))
                c = SymBool.make('eq', s - v)
                self.path.append(c if take else ~c)
                if take:
                    self.facts[key] = v
                    return v
                continue
            res, model, enc = self.check_int(s)
            if res == 'unsat':
                raise Infeasible()
            if res != 'sat':
                raise Inconclusive('integer value of an index not decided by the solver')
            v = model
            c = SymBool.make('eq', s - v)
            other = self.check([~c])
            if other != 'unsat':
                self.pending.append(list(self.trace) + [(v, False)])
                self.stats.forks += 1
            self.trace.append((v, True))
            self.path.append(c)
            self.facts[key] = v
            return v

    def check_int(self, s):
        enc = Z3Enc()
        fs = [enc.cond(c) for c in self.path]
        t = enc.real(s)
        v = z3.FreshInt('v')
        sol = z3.Solver()
        sol.set('timeout', 10000)
        sol.add(*enc.cons)
        sol.add(*fs)
        sol.add(z3.ToReal(v) == t)
        t0 = time.time()
        r = sol.check()
        self.stats.time += time.time() - t0
        self.stats.queries += 1
        self.stats.branch_queries += 1
        if r == z3.sat:
            self.stats.sat += 1
            return 'sat', sol.model()[v].as_long(), enc
        self.stats.unsat += r == z3.unsat
        self.stats.unknown += r == z3.unknown
        return str(r), None, enc


CTX = Context()
