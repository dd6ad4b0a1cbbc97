"""Sparse multivariate Laurent polynomials with rational coefficients.

A monomial is a single Python int: signed 16-bit exponent slots, slot k for atom k, so that multiplying
monomials is integer addition.  Atom 0 is the imaginary unit (I^2 = -1), atom 1 is sqrt(2) (squared = 2).
Further algebraic atoms m carry a rule m^2 -> polynomial (kept in RULES); `Poly.r` says that such an atom may occur.
"""
from fractions import Fraction
from math import gcd

SH = 16
MASK = 0xFFFF
HALF = 0x8000
I_BIT = 1          # I^1
S_BIT = 1 << SH    # sqrt2^1

RULES = {}         # atom id -> Poly  (atom^2 -> Poly)


def mono(k, e=1):
    return e << (SH * k) if e >= 0 else -((-e) << (SH * k))


def decode(m):
    """list of (atom, exponent), ascending atom id"""
    out = []
    k = 0
    while m:
        low = m & MASK
        if low:
            if low >= HALF:
                low -= 0x10000
            out.append((k, low))
            m -= low
        m >>= SH
        k += 1
    return out


class Poly:
    __slots__ = ('d', 'q', 'r')

    def __init__(self, d, q=1, r=False):
        self.d, self.q, self.r = d, q, r

    # --- constructors
    @staticmethod
    def const(c):
        if isinstance(c, int):
            return Poly({0: c} if c else {})
        c = Fraction(c)
        return Poly({0: c.numerator} if c else {}, c.denominator)

    def __bool__(self):
        return bool(self.d)

    def is_const(self):
        d = self.d
        return not d or (len(d) == 1 and 0 in d)

    def const_value(self):
        return Fraction(self.d.get(0, 0), self.q)

    def __neg__(self):
        return Poly({k: -c for k, c in self.d.items()}, self.q, self.r)

    def __add__(self, o):
        if not o.d:
            return self
        if not self.d:
            return o
        a, b = self, o
        if len(a.d) < len(b.d):
            a, b = b, a
        qa, qb = a.q, b.q
        if qa == qb:
            d = dict(a.d)
            q, fb = qa, 1
        else:
            g = gcd(qa, qb)
            fa, fb = qb // g, qa // g
            q = qa * fa
            d = {k: c * fa for k, c in a.d.items()} if fa != 1 else dict(a.d)
        for k, c in b.d.items():
            c = c * fb
            v = d.get(k)
            if v is None:
                d[k] = c
            else:
                v += c
                if v:
                    d[k] = v
                else:
                    del d[k]
        return Poly(d, q if d else 1, (a.r or b.r) and bool(d))

    def __sub__(self, o):
        return self + (-o)

    def scale(self, c):
        if isinstance(c, int):
            n, m = c, 1
        else:
            n, m = c.numerator, c.denominator
        if n == 0:
            return Poly({})
        if n == 1 and m == 1:
            return self
        return Poly({k: v * n for k, v in self.d.items()}, self.q * m, self.r).norm()

    def norm(self):
        q = self.q
        if q != 1:
            g = q
            for c in self.d.values():
                g = gcd(g, c)
                if g == 1:
                    break
            if g != 1:
                self.d = {k: c // g for k, c in self.d.items()}
                self.q = q // g
        return self

    def __mul__(self, o):
        a, b = self, o
        if not a.d or not b.d:
            return Poly({})
        if len(a.d) < len(b.d):
            a, b = b, a
        d = {}
        bad = (S_BIT | I_BIT) << 1
        get = d.get
        for kb, cb in b.d.items():
            for ka, ca in a.d.items():
                k = ka + kb
                c = ca * cb
                if k & bad:
                    if k & 2:
                        k -= 2
                        c = -c
                    if k & (S_BIT << 1):
                        k -= S_BIT << 1
                        c += c
                v = get(k)
                d[k] = c if v is None else v + c
        d = {k: c for k, c in d.items() if c}
        p = Poly(d, a.q * b.q, a.r or b.r)
        if a.r and b.r:
            p = reduce_rules(p)
        elif p.q != 1 and p.q.bit_length() > 60:
            p.norm()
        return p

    def mul_mono(self, m):
        """multiply by a monomial in free atoms (no I, sqrt2, ruled atoms)"""
        return Poly({k + m: c for k, c in self.d.items()}, self.q, self.r)

    def __pow__(self, n):
        r = Poly.const(1)
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def key(self):
        self.norm()
        return (self.q, frozenset(self.d.items()))

    def __eq__(self, o):
        return isinstance(o, Poly) and not (self - o).d

    __hash__ = None

    def atoms(self):
        s = set()
        for m in self.d:
            for k, _ in decode(m):
                s.add(k)
        return s


ZERO = Poly({})
ONE = Poly.const(1)
I_P = Poly({I_BIT: 1})
SQ2_P = Poly({S_BIT: 1})


def reduce_rules(p):
    """Apply atom^2 -> rule until no ruled atom has exponent outside {0,1}."""
    while True:
        done = {}
        todo = []
        for m, c in p.d.items():
            hit = None
            if c:
                for k, e in decode(m):
                    if k > 1 and k in RULES and (e >= 2 or e < 0):
                        hit = (k, e)
                        if e < 0:
                            raise ArithmeticError('negative power of an algebraic atom')
            if hit is None:
                done[m] = c
            else:
                todo.append((m, c) + hit)
        if not todo:
            return p
        acc = Poly(done, p.q, True)
        groups = {}
        for m, c, k, e in todo:
            g = groups.setdefault((k, e // 2), {})
            g[m - mono(k, 2 * (e // 2))] = c
        for (k, h), d in groups.items():
            acc = acc + Poly(d, p.q, True).__mul_norule__(RULES[k] ** h)
        p = acc


def _mul_norule(a, b):
    if not a.d or not b.d:
        return Poly({})
    d = {}
    bad = (S_BIT | I_BIT) << 1
    for kb, cb in b.d.items():
        for ka, ca in a.d.items():
            k = ka + kb
            c = ca * cb
            if k & bad:
                if k & 2:
                    k -= 2
                    c = -c
                if k & (S_BIT << 1):
                    k -= S_BIT << 1
                    c += c
            d[k] = d.get(k, 0) + c
    return Poly({k: c for k, c in d.items() if c}, a.q * b.q, a.r or b.r).norm()


Poly.__mul_norule__ = _mul_norule


def split_atom(p, k):
    """p = A + B*atom_k with exponents 0/1"""
    A, B = {}, {}
    mk = mono(k)
    for m, c in p.d.items():
        e = 0
        for kk, ee in decode(m):
            if kk == k:
                e = ee
        if e == 0:
            A[m] = c
        elif e == 1:
            B[m - mk] = c
        else:
            raise ArithmeticError('split')
    return Poly(A, p.q, p.r), Poly(B, p.q, p.r)


def min_exponents(p):
    """per-atom minimal exponents over all monomials -> monomial int (Laurent content), ignoring I and sqrt2"""
    mins = None
    for m in p.d:
        e = dict(x for x in decode(m) if x[0] > 1)
        if mins is None:
            mins = e
        else:
            for k in list(mins):
                mins[k] = min(mins[k], e.get(k, 0))
            for k, v in e.items():
                if k not in mins and v < 0:
                    mins[k] = v
    return {k: v for k, v in (mins or {}).items() if v}


def _vec(m):
    return dict(decode(m))


def exact_div(p, f, limit=200000):
    """p / f as Laurent polynomials when f divides p exactly, else None (f without I, sqrt2, ruled atoms)."""
    if not p.d:
        return Poly({})
    ats = sorted(f.atoms())
    if not ats:
        return p.scale(1 / f.const_value())

    # lex order on exponents of f's atoms (from the highest id): leading monomial of f
    def lexkey(m):
        e = dict(decode(m))
        return tuple(e.get(k, 0) for k in ats)
    fitems = [(lexkey(m), m, c) for m, c in f.d.items()]
    fitems.sort(reverse=True)
    flm, fm, fc = fitems[0]
    fmin = tuple(min(x[0][i] for x in fitems) for i in range(len(ats)))
    fmax = tuple(max(x[0][i] for x in fitems) for i in range(len(ats)))
    # group p by the cofactor part (other atoms)
    rem = dict(p.d)
    keys = {m: lexkey(m) for m in rem}
    pmin = tuple(min(k[i] for k in keys.values()) for i in range(len(ats)))
    pmax = tuple(max(k[i] for k in keys.values()) for i in range(len(ats)))
    # quick degree test
    for i in range(len(ats)):
        if pmax[i] - pmin[i] < fmax[i] - fmin[i]:
            return None
    import heapq
    heap = [tuple([tuple(-x for x in keys[m])] + [m]) for m in rem]
    heapq.heapify(heap)
    out = {}
    steps = 0
    while heap:
        nk, m = heapq.heappop(heap)
        c = rem.get(m)
        if not c:
            rem.pop(m, None)
            continue
        lk = tuple(-x for x in nk)
        # quotient monomial exponents must stay in the admissible window
        for i in range(len(ats)):
            e = lk[i] - flm[i]
            if e < pmin[i] - fmin[i] or e > pmax[i] - fmax[i]:
                return None
        qm = m - fm
        qc = Fraction(c) / fc if not isinstance(c, int) or c % fc else c // fc
        out[qm] = out.get(qm, 0) + qc
        for k, m2, c2 in fitems:
            mm = m2 + qm
            v = rem.get(mm)
            nv = (v or 0) - qc * c2
            if nv:
                rem[mm] = nv
                if v is None:
                    heapq.heappush(heap, (tuple(-x for x in lexkey(mm)), mm))
            else:
                rem.pop(mm, None)
        steps += 1
        if steps > limit:
            return None
    # denominators
    den = 1
    for c in out.values():
        if not isinstance(c, int):
            den = den * c.denominator // gcd(den, c.denominator)
    d = {k: int(c * den) for k, c in out.items() if c}
    return Poly(d, den * p.q, p.r).scale(Fraction(f.q)).norm()
