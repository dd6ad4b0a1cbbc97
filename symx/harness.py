"""Harness inputs, obligations, path exploration, replay on the real code, and the command line of every check."""
import contextlib
import numbers
import importlib
import json
import math
import os
import random
import signal
import sys
import time
import traceback
import warnings
from fractions import Fraction

import numpy as np

warnings.filterwarnings('ignore')
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SYMX_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)

from . import core as C  # noqa: E402
from . import poly as P  # noqa: E402
from . import nd  # noqa: E402
from .core import S, SymBool, CTX, REG, lift, Unsupported, Infeasible, Inconclusive, z3  # noqa: E402
from .nd import NP, SA, tosym, JUNK  # noqa: E402
from . import jx  # noqa: E402


class Timeout(BaseException):
    pass


class BadPoint(Exception):
    """numeric inputs outside the harness's assumptions"""


class Violation(Exception):
    def __init__(self, label, env, info):
        self.label, self.env, self.info = label, env, info


# ------------------------------------------------------------------------------------------------ patching
class MathFacade:
    pi, e, inf, nan, tau = math.pi, math.e, math.inf, math.nan, math.tau

    def __getattr__(self, k):
        f = getattr(math, k)
        g = getattr(np, {'acos': 'arccos', 'asin': 'arcsin', 'atan': 'arctan', 'atan2': 'arctan2', 'fabs': 'abs', 'pow': 'power'}.get(k, k), None)

        def w(*a):
            if any(isinstance(x, S) for x in a):
                if k in ('floor', 'ceil'):
                    return C.concretize(C.floor(a[0])) if k == 'floor' else -C.concretize(C.floor(-a[0]))
                if g is None:
                    raise Unsupported('math.' + k)
                return g(*a)
            return f(*a)
        return w if callable(f) else f


MATH = MathFacade()


def _betaincinv(a, b, y):
    sh = np.broadcast_shapes(np.shape(a), np.shape(b), np.shape(y))
    return nd._const_arr(sh, JUNK) if sh else JUNK


@contextlib.contextmanager
def patched(extra=()):
    """replace numpy, math, scipy.sparse, ... by the symbolic facades in every simphox module; restores on exit"""
    import scipy.sparse as rsp
    import scipy.special
    import scipy.linalg
    from . import sparse as ssp, linalg as slinalg
    subst = {id(np): NP, id(math): MATH, id(rsp): ssp.SP, id(scipy.special.betaincinv): _betaincinv}
    subst.update(jx.substitutions())
    subst.update(slinalg.substitutions())
    for o, r in ssp.EXTRA.items():
        subst[o] = r
    for o, r in extra:
        subst[id(o)] = r
    saved = []
    for name, mod in list(sys.modules.items()):
        if mod is None or not (name == 'simphox' or name.startswith('simphox.')):
            continue
        for k, v in list(vars(mod).items()):
            r = subst.get(id(v))
            if r is None and callable(v) and getattr(np, getattr(v, '__name__', '?'), None) is v and not isinstance(v, type):
                r = getattr(NP, v.__name__)
            if r is None:
                r = jx.convert(v)
            if r is not None:
                saved.append((mod, k, v))
                setattr(mod, k, r)
        if 'isinstance' not in vars(mod):
            saved.append((mod, 'isinstance', None))
            mod.isinstance = sym_isinstance
    try:
        yield
    finally:
        for mod, k, v in saved:
            if v is None:
                delattr(mod, k)
            else:
                setattr(mod, k, v)


def sym_isinstance(o, t):
    """symbolic reals are floats, as they are in runs of the real code"""
    if isinstance(o, t):
        return True
    if isinstance(o, C.S):
        ts = t if isinstance(t, tuple) else (t,)
        return any(x in (float, np.float64, np.floating, numbers.Real, numbers.Number) for x in ts) if o.is_real() else any(x in (complex, np.complex128, np.complexfloating, numbers.Complex, numbers.Number) for x in ts)
    return False


# ------------------------------------------------------------------------------------------------ inputs
class Inputs:
    def __init__(self, mode, env=None):
        self.mode = mode
        self.sym = mode == 'sym'
        self.env = env or {}
        self.spec = {}
        self.obs = []          # (label, lhs, rhs, kind, tol)
        self.on_obligation = None
        self.used = {}
        self.notes = {}

    # --- scalars
    def real(self, name, lo=None, hi=None, inv=False):
        self.spec[name] = ('real', lo, hi)
        if self.sym:
            if lo is not None and lo > 0:
                return C.real_atom(name, pos=True, lo=lo, hi=hi)
            return C.real_atom(name, lo=lo, hi=hi, inv=inv)
        return self._get(name)

    def pos(self, name, lo=None, hi=None):
        self.spec[name] = ('pos', lo, hi)
        if self.sym:
            return C.real_atom(name, pos=True, lo=lo, hi=hi)
        return self._get(name)

    def angle(self, name):
        self.spec[name] = ('angle', None, None)
        if self.sym:
            return C.real_atom(name)
        return self._get(name)

    def halfangle(self, name):
        """(c, s) = (cos x, sin x), x in (0, pi/2)"""
        self.spec[name] = ('half', None, None)
        if self.sym:
            return C.sincos_atoms(name)
        x = self._get(name)
        return math.cos(x), math.sin(x)

    def choice(self, name, options):
        """one of the listed values; every one is explored"""
        options = list(options)
        self.spec[name] = ('choice', 0, len(options) - 1)
        if self.sym:
            i = CTX.pick_int(C.int_atom(name, 0, len(options) - 1))
            self.used[name] = i
            return options[i]
        return options[int(self._get(name))]

    def int(self, name, lo, hi):
        self.spec[name] = ('choice', lo, hi)
        if self.sym:
            return CTX.pick_int(C.int_atom(name, lo, hi))
        return int(self._get(name))

    def symint(self, name, lo, hi):
        """integer input kept symbolic"""
        self.spec[name] = ('choice', lo, hi)
        if self.sym:
            return C.int_atom(name, lo, hi)
        return int(self._get(name))

    def nonneg(self, name, lo=None, hi=None):
        """>= 0, with the zero case explored as its own path"""
        if self.choice(name + '?0', [False, True]):
            return lift(0) if self.sym else 0.0
        return self.pos(name, lo, hi)

    def cplx(self, name):
        re, im = self.real(name + '_r'), self.real(name + '_i')
        if self.sym:
            return re + S(P.I_P) * im
        return complex(re, im)

    def polar(self, name, zero=False):
        r = self.nonneg(name + '_m') if zero else self.pos(name + '_m')
        a = self.angle(name + '_a')
        return r * (C.exp(S(P.I_P) * a) if self.sym else np.exp(1j * a))

    def cis(self, x):
        return C.exp(S(P.I_P) * lift(x)) if self.sym else np.exp(1j * x)

    # --- arrays
    def arr(self, x):
        if self.sym:
            return tosym(x, copy=True)
        return np.array(x)

    def jarr(self, x):
        """as a JAX array"""
        if self.sym:
            return tosym(x, copy=True).view(jx.JA)
        import jax.numpy as jnp
        return jnp.array(x)

    def reals(self, name, *shape, **k):
        return self._mk(self.real, name, shape, k)

    def poss(self, name, *shape, **k):
        return self._mk(self.pos, name, shape, k)

    def angles(self, name, *shape):
        return self._mk(self.angle, name, shape, {})

    def cplxs(self, name, *shape):
        return self._mk(self.cplx, name, shape, {})

    def polars(self, name, *shape):
        return self._mk(self.polar, name, shape, {})

    def _mk(self, f, name, shape, k):
        if self.sym:
            a = np.empty(shape, dtype=object)
            for i in np.ndindex(*shape):
                a[i] = f(name + '_' + '_'.join(map(str, i)), **k)
            return a.view(SA)
        vals = [f(name + '_' + '_'.join(map(str, i)), **k) for i in np.ndindex(*shape)]
        return np.array(vals).reshape(shape)

    def _get(self, name):
        if name not in self.env:
            raise BadPoint('missing ' + name)
        return self.env[name]

    @property
    def np(self):
        return NP if self.sym else np

    # --- assumptions and obligations
    def assume(self, c):
        if isinstance(c, np.ndarray):
            for x in c.ravel():
                self.assume(x)
            return
        if self.sym:
            CTX.assume(c)
        elif not c:
            raise BadPoint('assumption')

    def decide(self, c):
        return bool(c)

    def eq(self, lhs, rhs, label, tol=2e-5, scale=None):
        self._ob(label, lhs, rhs, 'eq', tol, scale)

    def le(self, lhs, rhs, label, tol=1e-6):
        self._ob(label, lhs, rhs, 'le', tol, None)

    def true(self, c, label):
        self._ob(label, c, True, 'true', 0, None)

    def _ob(self, label, lhs, rhs, kind, tol, scale):
        if self.on_obligation:
            self.on_obligation(self, label, lhs, rhs, kind, tol, scale)
        else:
            self.obs.append((label, lhs, rhs, kind, tol, scale))


def sample_env(spec, rng, fixed=None):
    env = {}
    for n, (k, lo, hi) in spec.items():
        if fixed and n in fixed:
            env[n] = fixed[n]
            continue
        if k == 'choice':
            env[n] = rng.randint(lo, hi)
        elif k == 'half':
            env[n] = rng.uniform(0.1, math.pi / 2 - 0.1)
        elif k == 'angle':
            env[n] = rng.uniform(-math.pi, math.pi)
        elif k == 'pos':
            env[n] = rng.uniform(lo if lo is not None else 0.3, hi if hi is not None else max(2.0, 2 * (lo or 0)))
        else:
            a = lo if lo is not None else -2.0
            b = hi if hi is not None else max(2.0, a + 2)
            env[n] = rng.uniform(min(a, b), b)
    return env


def _num_ok(lhs, rhs, kind, tol, scale):
    if kind == 'true':
        return bool(np.all(lhs)), 0.0
    l, r = np.asarray(lhs), np.asarray(rhs)
    if kind == 'eq':
        if l.shape != r.shape and (l.ndim and r.ndim) and l.shape != r.shape:
            return False, f'shape {l.shape} != {r.shape}'
        if l.dtype == object or r.dtype == object:
            return bool(np.all(l == r)), 0.0
        if not (np.all(np.isfinite(l)) and np.all(np.isfinite(r))):
            return False, 'non-finite'
        d = float(np.max(np.abs(l - r))) if l.size else 0.0
        sc = scale if scale is not None else max(1.0, float(np.max(np.abs(r))) if r.size else 1.0)
        return d <= tol * sc, d
    d = float(np.max(np.real(l) - np.real(r))) if l.size or r.size else 0.0
    return d <= tol * max(1.0, float(np.max(np.abs(r)))), d


def run_numeric(fn, cfg, env, want_vals=False):
    """run the harness on the unpatched code; returns (failures, values)"""
    I = Inputs('num', env)
    fails = []
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            np.random.seed(12345)
            fn(I, **cfg)
    except BadPoint:
        raise
    except Exception as e:
        import traceback as tb
        if isinstance(e, MemoryError) or 'RESOURCE_EXHAUSTED' in str(e) or 'memory' in str(e):
            raise Timeout('memory limit')
        fails.append(('exception', f'{type(e).__name__}: {e}', ''.join(tb.format_exc(limit=-3))))
    for label, lhs, rhs, kind, tol, scale in I.obs:
        try:
            ok, err = _num_ok(lhs, rhs, kind, tol, scale)
        except Exception as e:
            ok, err = False, repr(e)
        if not ok:
            fails.append((label, err, ''))
    return fails, I


# ------------------------------------------------------------------------------------------------ one case
class CaseResult:
    def __init__(self, name):
        self.name = name
        self.status = 'ok'      # ok | violation | inconclusive
        self.detail = ''
        self.label = None
        self.env = None
        self.stats = {}
        self.known = []
        self.wall = 0


class Case:
    def __init__(self, fn, name=None, timeout=120, max_paths=400, validate=2, nra_ms=20000, modules=(), **cfg):
        self.fn, self.cfg, self.timeout, self.max_paths = fn, cfg, timeout, max_paths
        self.validate, self.nra_ms = validate, nra_ms
        self.modules = modules
        self.name = name or fn.__name__ + ('(' + ', '.join(f'{k}={v}' for k, v in cfg.items()) + ')' if cfg else '')


class Prover:
    def __init__(self, case, seed):
        self.case = case
        self.rng = random.Random(seed * 7919 + 13)
        self.st = dict(paths=0, infeasible=0, obligations=0, discharged=0, lra=0, nra=0, forks=0, witnessed=0,
                       validated=0, terms=0, tol=0, fam={})
        self.spec = {}
        self.seen = set()
        self.inconclusive = []
        self.path_env = None

    # -- obligations
    def on_ob(self, I, label, lhs, rhs, kind, tol, scale):
        CTX_spec = I.spec
        self.spec.update(CTX_spec)
        self.st['obligations'] += 1
        self.cur_obs.append((label, lhs, rhs, kind))
        fam = self.st['fam']
        fam[label] = fam.get(label, 0) + 1
        if kind == 'true':
            if isinstance(lhs, np.ndarray):
                items = list(lhs.ravel())
            else:
                items = [lhs]
            bad = []
            for b in items:
                if isinstance(b, SymBool):
                    bad.append(~b)
                elif not b:
                    bad.append(True)
            if not bad:
                self._trivial()
                return
            if any(b is True for b in bad):
                cond = []
            else:
                cond = [_or_all(bad)]
            self._refute(label, cond)
            return
        if kind == 'le':
            d = nd._elem(lambda x: lift(x), tosym(lhs) - tosym(rhs) if isinstance(lhs, np.ndarray) or isinstance(rhs, np.ndarray) else tosym(lift(lhs) - rhs))
            bad = []
            for x in np.ravel(nd.plain(d)):
                b = x <= 0
                if isinstance(b, SymBool):
                    bad.append(~b)
                elif not b:
                    bad.append(True)
            if not bad:
                self._trivial()
                return
            if any(b is True for b in bad):
                self._refute(label, [])
            else:
                self._refute(label, [_or_all(bad)])
            return
        # eq
        L, R = (nd.plain(_tos(lhs)), nd.plain(_tos(rhs)))
        if L.shape != R.shape:
            if L.ndim and R.ndim:
                self._refute(label + ' [shape]', [])
                return
            L, R = np.broadcast_arrays(L, R)
        pairs = []
        for a, b in zip(L.ravel(), R.ravel()):
            if a is JUNK or b is JUNK:
                raise Unsupported(f'{label}: result depends on uninitialised/random values')
            if a is b:
                continue
            if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
                if a != b:
                    self._refute(label, [])
                continue
            if C._isinf(a) or C._isinf(b):
                if not (C._isinf(a) and C._isinf(b) and a == b):
                    self._refute(label, [])
                continue
            pairs.append((lift(a), lift(b)))
        res = self._lra(pairs)
        if res == 'unsat':
            self.st['discharged'] += 1
            return
        if any(C.has_half(x) for p in pairs for x in p):
            if self._lra([(q, lift(0)) for a, b in pairs for q in C.half_parts(a - b)]) == 'unsat':
                self.st['discharged'] += 1
                return
        if os.environ.get("VP_DBG"):
            for a, b in pairs:
                for q in C.half_parts(a - b):
                    if not q.is_zero(): print("PART", C.show(q, 40), file=sys.stderr)
        # residuals that are not identically zero
        bad = []
        for a, b in pairs:
            r = a - b
            if r.is_zero() or _tiny(r, a, b):
                continue
            bad.append((r, a, b))
        if not bad:
            if self._lra_tol(pairs):
                self.st['discharged'] += 1
                self.st['tol'] += 1
                return
            raise Inconclusive(label + ': residual rounding terms not bounded')
        conds = []
        for r, _, _ in bad:
            c = SymBool.make('eq', r)
            if isinstance(c, bool):
                conds = None
                break
            conds.append(~c)
        self._refute(label, [] if conds is None else [_or_all(conds)], bad)

    def _trivial(self):
        self.st['discharged'] += 1

    def _lra(self, pairs):
        """linear abstraction: every monomial is an unconstrained real; unsat <=> the polynomials coincide"""
        t = time.time()
        mv = {}
        dis = []
        n = 0
        for a, b in pairs:
            da = {f: e for f, e in a.d.items()}
            db = {f: e for f, e in b.d.items()}
            na, nb = a.n, b.n
            for f in set(da) | set(db):
                x, y = da.get(f, 0), db.get(f, 0)
                if x < y:
                    na = na * (REG.factor_list[f] ** (y - x))
                elif y < x:
                    nb = nb * (REG.factor_list[f] ** (x - y))
            n += len(na.d) + len(nb.d)
            if len(na.d) == 0 and len(nb.d) == 0:
                continue
            ta = _lin(na, mv)
            tb = _lin(nb, mv)
            dis.append(ta != tb)
        self.st['terms'] += n
        s = z3.Solver()
        s.set('timeout', 60000)
        s.add(z3.Or(*dis) if dis else z3.BoolVal(False))
        r = str(s.check())
        self.st['lra'] += 1
        CTX.stats.queries += 1
        CTX.stats.time += time.time() - t
        if r == 'unsat':
            CTX.stats.unsat += 1
        return r

    def _lra_tol(self, pairs):
        """the residual is a sum of rounding-level coefficients: with every monomial in [-1, 1] it stays below tolerance"""
        t = time.time()
        s = z3.Solver()
        s.set('timeout', 60000)
        mv = {}
        dis = []
        for a, b in pairs:
            r = a - b
            if r.is_zero():
                continue
            big = max([abs(Fraction(c, p.q)) for p in (a.n, b.n) for c in p.d.values()] + [Fraction(1, 10 ** 6)])
            tt = _lin(r.n, mv)
            bound = z3.Q(*_fr(big * Fraction(1, 10 ** 8)))
            dis.append(z3.Or(tt > bound, tt < -bound))
        for v in mv.values():
            s.add(v <= 1, v >= -1)
        s.add(z3.Or(*dis) if dis else z3.BoolVal(False))
        r = str(s.check())
        self.st['lra'] += 1
        CTX.stats.queries += 1
        CTX.stats.time += time.time() - t
        return r == 'unsat'

    def _refute(self, label, conds, bad=None):
        """is there an input on this path with the negated obligation?  unsat: discharged; sat: replay"""
        self.st['nra'] += 1
        big = sum(len(r.n.d) for r, _, _ in bad) if bad else 0
        res, model, enc = 'unknown', None, None
        if big < 3000:
            res, model, enc = CTX.check(conds, timeout=self.case.nra_ms, want_model=True, kind='obligation')
        if res == 'unsat':
            self.st['discharged'] += 1
            return
        fixed = model_env(model, enc) if model is not None else {}
        tries = []
        if fixed:
            tries.append(sample_env(self.spec, self.rng, fixed))
            keys = [k for k, v in fixed.items() if v != 0]
            tries.append(sample_env(self.spec, self.rng, {k: fixed[k] for k in keys}))
        chosen = dict(self.path_choices)
        for k in range(24):
            tries.append(sample_env(self.spec, self.rng, chosen))
        last = None
        for env in tries:
            v = self.try_env(env)
            if v:
                raise Violation(label, env, dict(solver=res, failures=v))
        self.inconclusive.append(f'{label}: solver {res}, no replay on the real code' + (
            f'; residual {C.show(bad[0][0], 6)[:300]}' if bad else '') + f' path={[repr(p)[:80] for p in CTX.path][:6]}')
        raise Inconclusive(self.inconclusive[-1])

    def try_env(self, env):
        """replay on the real code; environment outside the assumptions -> None"""
        for _ in range(6):
            try:
                with unpatched():
                    fails, I = run_numeric(self.case.fn, self.case.cfg, env)
                return fails
            except BadPoint as e:
                msg = str(e)
                if msg.startswith('missing '):
                    # the harness asked for an input this path had not created yet: sample it
                    I2 = Inputs('num', env)
                    name = msg[8:]
                    sp = discover_spec(self.case, env)
                    self.spec.update(sp)
                    env.update({k: v for k, v in sample_env({k: v for k, v in sp.items() if k not in env}, self.rng).items()})
                    if name not in env:
                        return None
                    continue
                return None
        return None


def discover_spec(case, env):
    I = Inputs('num', dict(env))
    spec = {}

    class _E(dict):
        def __missing__(self, k):
            raise KeyError(k)

    def get(name):
        if name not in I.env:
            k, lo, hi = I.spec[name]
            spec[name] = I.spec[name]
            I.env[name] = sample_env({name: I.spec[name]}, random.Random(hash(name) & 0xffff))[name]
        return I.env[name]
    I._get = get
    try:
        with unpatched(), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            case.fn(I, **case.cfg)
    except Exception:
        pass
    return spec


_PATCH_STACK = []


@contextlib.contextmanager
def sym_patch(extra=()):
    p = patched(extra)
    p.__enter__()
    _PATCH_STACK.append((p, extra))
    try:
        yield
    finally:
        p2, _ = _PATCH_STACK.pop()
        p2.__exit__(None, None, None)


@contextlib.contextmanager
def unpatched():
    """temporarily restore the real modules"""
    if not _PATCH_STACK:
        yield
        return
    p, extra = _PATCH_STACK[-1]
    p.__exit__(None, None, None)
    try:
        yield
    finally:
        q = patched(extra)
        q.__enter__()
        _PATCH_STACK[-1] = (q, extra)


def _tos(x):
    if isinstance(x, (list, tuple)):
        return tosym(x)
    return x


def _or_all(cs):
    return cs[0] if len(cs) == 1 else SymBool('or', tuple(cs))


def _fr(f):
    f = Fraction(f)
    return f.numerator, f.denominator


def _lin(p, mv):
    ts = []
    for m, c in p.d.items():
        v = mv.get(m)
        if v is None:
            v = mv[m] = z3.Real('m%d' % len(mv))
        ts.append(z3.Q(c, p.q) * v if p.q != 1 else z3.RealVal(c) * v)
    return z3.Sum(ts) if ts else z3.RealVal(0)


def _tiny(r, a, b):
    big = max([abs(Fraction(c, p.q)) for p in (a.n, b.n) for c in p.d.values()] + [Fraction(1, 10 ** 6)])
    lim = big * Fraction(1, 10 ** 10)
    return all(abs(Fraction(c, r.n.q)) <= lim for c in r.n.d.values())


def _zval(m, v):
    x = m.eval(v, model_completion=True)
    if z3.is_algebraic_value(x):
        x = x.approx(20)
    if z3.is_rational_value(x):
        return float(x.as_fraction())
    if z3.is_int_value(x):
        return x.as_long()
    return None


def model_env(model, enc):
    out = {}
    for k, v in enc.vars.items():
        a = REG.atoms[k]
        if a.kind == 'unit' and a.defn[0] == 'unit':
            dec = P.decode(a.defn[1])
            if len(dec) == 1 and dec[0][1] == 1 and REG.atoms[dec[0][0]].base:
                x, y = _zval(model, v[0]), _zval(model, v[1])
                if x is not None and y is not None:
                    out[REG.atoms[dec[0][0]].name] = math.atan2(y, x) * 4 / float(a.defn[2])
        elif a.defn and a.defn[0] == 'exp':
            dec = P.decode(a.defn[1])
            if len(dec) == 1 and dec[0][1] == 1 and REG.atoms[dec[0][0]].base:
                x = _zval(model, v[0])
                if x and x > 0:
                    out[REG.atoms[dec[0][0]].name] = math.log(x) / float(a.defn[2])
    for k, v in enc.vars.items():
        a = REG.atoms[k]
        if a.defn and a.defn[0] == 'var' and a.name not in out:
            x = _zval(model, v[0])
            if x is not None:
                out[a.name] = int(round(x)) if a.kind == 'int' else x
        elif a.defn and a.defn[0] == 'qt':
            c = _zval(model, v[0])
            if c is not None:
                out[a.defn[1]] = 2 * math.atan(c)
    return out


def to_num(x, ev):
    a = nd.plain(_tos(x))
    o = np.empty(a.shape, dtype=complex)
    for i in np.ndindex(*a.shape):
        y = a[i]
        if isinstance(y, SymBool):
            o[i] = float(ev.test(y))
        elif C._isinf(y):
            o[i] = y
        else:
            o[i] = ev.ev(y)
    return o


_LOADED = []


def preload():
    """import every simphox module before patching"""
    if _LOADED:
        return
    import pkgutil
    import simphox
    import simphox.circuit  # noqa
    for m in pkgutil.walk_packages(simphox.__path__, 'simphox.'):
        try:
            importlib.import_module(m.name)
        except Exception:
            pass
    _LOADED.append(1)


def run_case(case, seed, budget=None):
    """explore every path of the harness; discharge every obligation; validate the encoding against the real code"""
    res = CaseResult(case.name)
    t0 = time.time()
    pr = Prover(case, seed)
    CTX.stats = C.Stats()

    def alarm(*a):
        raise Timeout('time limit')
    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, int(case.timeout), 3)  # again if it is lost in a destructor
    todo = [[]]
    paths_info = []
    try:
        preload()
        while todo:
            prefix = todo.pop()
            if pr.st['paths'] >= case.max_paths:
                raise Inconclusive(f'more than {case.max_paths} paths')
            REG.clear()
            C._FACTOR_CACHE.clear()
            CTX.reset_run(prefix)
            I = Inputs('sym')
            I.on_obligation = pr.on_ob
            pr.cur_obs = []
            pr.path_choices = I.used
            status = 'done'
            err = None
            np.random.seed(12345)
            try:
                with sym_patch():
                    case.fn(I, **case.cfg)
            except Infeasible:
                status = 'infeasible'
                pr.st['infeasible'] += 1
            except (Violation, Inconclusive, Unsupported, Timeout):
                pr.spec.update(I.spec)
                raise
            except z3.z3types.Z3Exception as e:
                pr.spec.update(I.spec)
                if 'canceled' in str(e) or 'interrupted' in str(e):
                    raise Timeout('time limit (solver)')
                raise
            except Exception as e:
                status, err = 'raised', e
                tbs = traceback.format_exc(limit=-4)
            pr.spec.update(I.spec)
            todo.extend(CTX.pending)
            if status == 'infeasible':
                continue
            if status == 'done' and len(CTX.trace) < len(prefix):
                raise Inconclusive('a path met fewer decisions than the run it continues')
            pr.st['paths'] += 1
            # witness and validation of this path on the real code
            envs = []
            fixed = dict(I.used)
            sp = dict(I.spec)
            want = case.validate
            got = 0
            for k in range(12 if not CTX.path else 40):
                env = sample_env(sp, pr.rng, fixed)
                ev = C.NumEnv(env)
                try:
                    with np.errstate(all='ignore'):
                        sat = all(ev.test(c, 1e-9) for c in CTX.path)
                except (ZeroDivisionError, OverflowError, ValueError):
                    sat = False
                except KeyError:
                    sat = False
                if sat:
                    envs.append(env)
                    if len(envs) >= want:
                        break
            if not envs:
                r, model, enc = CTX.check([], timeout=10000, want_model=True, kind='obligation')
                if r == 'unsat':
                    pr.st['infeasible'] += 1
                    pr.st['paths'] -= 1
                    if status == 'raised':
                        continue
                    continue
                if model is not None:
                    env = sample_env(sp, pr.rng, {**model_env(model, enc), **fixed})
                    envs.append(env)
            path_ok = False
            for env in envs:
                fails = None
                try:
                    with unpatched():
                        fails, NI = run_numeric(case.fn, case.cfg, env)
                except BadPoint:
                    continue
                path_ok = True
                if fails:
                    raise Violation(fails[0][0], env, dict(solver='replay of a path witness', failures=fails))
                if status == 'raised':
                    continue
                # same obligations, same values
                if len(NI.obs) == len(pr.cur_obs):
                    ev = C.NumEnv(env)
                    for (la, l1, r1, k1), (lb, l2, r2, k2, tol, scale) in zip(pr.cur_obs, NI.obs):
                        if la != lb or k1 == 'true':
                            continue
                        try:
                            v1 = to_num(l1, ev)
                        except (KeyError, ZeroDivisionError, OverflowError, ValueError):
                            continue
                        v2 = np.asarray(l2, dtype=complex)
                        if v1.shape == v2.shape and v1.size:
                            sc = max(1.0, float(np.max(np.abs(v2))))
                            if not np.max(np.abs(v1 - v2)) <= 10 * max(tol, 1e-5) * sc:
                                raise Inconclusive(f'encoding and real code disagree on {la}: {v1.ravel()[:4]} vs {v2.ravel()[:4]} at {env}')
                            pr.st['validated'] += 1
            if path_ok:
                pr.st['witnessed'] += 1
            if status == 'raised':
                raise Inconclusive(f'the encoded code raised {type(err).__name__}: {err}; not reproduced on the real code\n{tbs}')
        if pr.st['obligations'] == 0:
            raise Inconclusive('no obligation reached (vacuous harness)')
        if pr.st['witnessed'] == 0:
            raise Inconclusive('no path was witnessed on the real code (vacuity)')
    except Violation as v:
        res.status, res.label, res.env, res.detail = 'violation', v.label, v.env, v.info
    except (Exception, Timeout) as e:
        signal.alarm(0)
        res.status = 'inconclusive'
        kind = type(e).__name__
        res.detail = f'{kind}: {e}' + ('' if isinstance(e, (Inconclusive, Timeout)) else '\n' + '...' + traceback.format_exc(limit=-6)[-1500:])
        # a confirmed failure of the real code is still a violation
        pr.path_choices = {}
        try:
            signal.alarm(60)
            sp = dict(pr.spec)
            for k in range(12):
                env = sample_env(sp, pr.rng)
                f = pr.try_env(env)
                if f:
                    res.status, res.label, res.env = 'violation', f[0][0], env
                    res.detail = dict(solver='undecided (' + res.detail[:300] + '); found by replaying the real code', failures=f)
                    break
        except (Exception, Timeout):
            pass
    finally:
        signal.alarm(0)
    s = CTX.stats
    res.stats = dict(pr.st, queries=s.queries, solver_s=round(s.time, 3), unsat=s.unsat, sat=s.sat, unknown=s.unknown, forks=s.forks)
    res.wall = round(time.time() - t0, 2)
    return res


# ------------------------------------------------------------------------------------------------ command line
def _worker(args):
    pid, idx, tier, seed = args
    import resource
    lim = (3 if tier == 'quick' else 3.6) * 2 ** 30
    resource.setrlimit(resource.RLIMIT_AS, (int(lim) + _vm(), resource.RLIM_INFINITY))
    mod = importlib.import_module('props.' + pid)
    cases = mod.cases(tier)
    try:
        return run_case(cases[idx], seed)
    except BaseException as e:  # noqa
        r = CaseResult(cases[idx].name)
        r.status, r.detail = 'inconclusive', 'worker: ' + traceback.format_exc(limit=-5)
        return r


def _serve(conn):
    try:
        while True:
            job = conn.recv()
            if job is None:
                break
            conn.send(_worker(job))
    except (EOFError, KeyboardInterrupt):
        pass
    finally:
        conn.close()
        os._exit(0)


def _pool(jobs, n, cases, tasks=20, until=None):
    """results of the jobs, from n processes of up to `tasks` jobs each; a job whose process dies or hangs is tried again on its own, once;
    at the time `until` the cases left are given up"""
    import multiprocessing as mp
    from multiprocessing.connection import wait
    ctx = mp.get_context('fork')
    todo, busy, idle = [(j, False) for j in reversed(jobs)], {}, []

    def end(conn, proc, kill=False):
        if kill:
            proc.kill()
        else:
            try:
                conn.send(None)
            except OSError:
                pass
        conn.close()
        proc.join(10)

    while todo or busy:
        while todo and len(busy) < n:
            job, again = todo.pop()
            fresh = [w for w in idle if not again]
            if fresh:
                conn, proc, done = fresh[0]
                idle.remove(fresh[0])
            else:
                if idle:
                    end(*idle.pop()[:2])
                conn, child = ctx.Pipe()
                proc, done = ctx.Process(target=_serve, args=(child,), daemon=True), 0
                proc.start()
                child.close()
            conn.send(job)
            busy[conn] = proc, job, done + 1, again, time.time() + 2 * cases[job[1]].timeout + 120
        for conn in wait(list(busy), timeout=5):
            proc, job, done, again, _ = busy.pop(conn)
            try:
                r = conn.recv()
            except (EOFError, OSError):
                r = None
            if r is None:
                end(conn, proc, kill=True)
                if not again:
                    todo.insert(0, (job, True))
                    continue
                r = CaseResult(cases[job[1]].name)
                r.status, r.detail = 'inconclusive', 'the process of the case ended'
            elif done >= tasks:
                end(conn, proc)
            else:
                idle.append((conn, proc, done))
            yield r
        for conn in [c for c, b in busy.items() if time.time() > b[4]]:
            proc, job = busy.pop(conn)[:2]
            end(conn, proc, kill=True)
            r = CaseResult(cases[job[1]].name)
            r.status, r.detail = 'inconclusive', 'the process of the case did not answer in time'
            yield r
        if until is not None and time.time() > until:
            for conn, b in list(busy.items()):
                end(conn, b[0], kill=True)
            for job in [b[1] for b in busy.values()] + [j for j, _ in todo]:
                r = CaseResult(cases[job[1]].name)
                r.status, r.detail = 'inconclusive', 'out of time'
                yield r
            break
    for w in idle:
        end(*w[:2])


def _vm():
    try:
        return int(open('/proc/self/statm').read().split()[0]) * 4096
    except Exception:
        return 4 << 30


def load_known():
    p = os.path.join(ROOT, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []


def main(argv=None):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case', default=None)
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('SYMX_JOBS', '8')))
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--replay', default=None)
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    mod = importlib.import_module('props.' + a.pid)
    if a.replay:
        return replay(mod, a.pid, a.replay)
    cases = mod.cases(tier)
    sel = [i for i in range(len(cases)) if a.case is None or a.case in cases[i].name]
    jobs = [(a.pid, i, tier, seed) for i in sel]
    results = []
    if a.jobs <= 1 or len(jobs) == 1:
        for j in jobs:
            results.append(_worker(j))
            if a.v:
                pr(results[-1])
    else:
        for r in _pool(jobs, min(a.jobs, len(jobs)), cases, until=t0 + 800 if tier == 'quick' else None):
            results.append(r)
            if a.v:
                pr(r)
    known = [k for k in load_known() if k.get('property') == a.pid and k.get('status', 'open') == 'open']
    viol, inc = [], []
    knownhit = set()
    for r in results:
        if r.status == 'violation':
            k = match_known(known, r)
            if k is not None:
                knownhit.add(k['id'])
                r.known.append(k['id'])
            else:
                viol.append(r)
        elif r.status == 'inconclusive':
            inc.append(r)
    # known-finding cases are separate harnesses which must still fail as listed
    for k in known:
        if k['id'] in knownhit:
            print(f"KNOWN-FINDING: property={a.pid} {k['what']}")
    if not a.case:
        evidence(a.pid, mod, tier, seed, results, viol, inc, time.time() - t0, known)
    for r in viol:
        path = write_replay(a.pid, r, tier)
        print(f'VIOLATION property={a.pid} replay={path}')
        f = r.detail['failures'][0] if isinstance(r.detail, dict) else r.detail
        print(f'  case {r.name}; obligation {r.label}; {str(f)[:600]}')
    for r in inc:
        print(f'INCONCLUSIVE property={a.pid} case={r.name}: {" ".join(str(r.detail)[:200 if not a.v else 1000].split())}')
    tot = sum(r.stats.get('obligations', 0) for r in results)
    print(f'{a.pid}: {len(results)} cases, {tot} obligations, {len(viol)} violations, {len(inc)} inconclusive, {time.time() - t0:.1f}s')
    if viol:
        return 1
    # undecided cases are reported above and in the evidence; without a decision for most of the cases the check has no answer
    return 2 if 2 * len(inc) >= len(results) else 0


def pr(r):
    print(r.name, r.status, r.wall, {k: v for k, v in r.stats.items() if k != 'fam'}, str(r.detail)[:700] if r.status != 'ok' else '', flush=True)


def match_known(known, r):
    for k in known:
        if k['case'] == r.name and (k.get('obligation') in (None, r.label)):
            return k
    return None


def write_replay(pid, r, tier):
    d = os.path.join(ROOT, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    import hashlib
    h = hashlib.sha1((pid + r.name + str(r.label)).encode()).hexdigest()[:10]
    p = os.path.join(d, f'{pid}-{h}.json')
    det = r.detail if isinstance(r.detail, dict) else {'detail': r.detail}
    with open(p, 'w') as f:
        json.dump(dict(property=pid, case=r.name, tier=tier, obligation=r.label, env=r.env,
                       solver=det.get('solver'), failures=[[str(y) for y in x] for x in det.get('failures', [])],
                       how=f'/verif/check.sh {pid} --tier {tier} --replay {p}'), f, indent=1)
    return p


def replay(mod, pid, path):
    d = json.load(open(path))
    for tier in (d.get('tier', 'quick'), 'thorough', 'quick'):
        for c in mod.cases(tier):
            if c.name == d['case']:
                fails, _ = run_numeric(c.fn, c.cfg, d['env'])
                for f in fails:
                    print(f'VIOLATION property={pid} replay={path}\n  {f[0]}: {f[1]}\n{f[2]}')
                return 1 if fails else 0
    print('case not found')
    return 2


def evidence(pid, mod, tier, seed, results, viol, inc, wall, known):
    d = os.path.join(ROOT, 'evidence')
    os.makedirs(d, exist_ok=True)
    import meta as _meta
    meta = _meta.get(pid)
    keys = ['paths', 'infeasible', 'obligations', 'discharged', 'lra', 'nra', 'forks', 'witnessed', 'validated', 'terms', 'queries',
            'unsat', 'sat', 'unknown']
    tot = {k: sum(r.stats.get(k, 0) for r in results) for k in keys}
    ev = dict(
        property=pid, tier=tier, seed=seed, level='other',
        coverage=dict(
            explanation=(
                'Bounded symbolic execution of the real simphox functions (run on /repo\'s current source with symbolic scalars in place of '
                'numpy numbers, or through the jaxpr JAX itself traces from them); each obligation is decided by z3 for every value of the '
                'symbolic inputs within the stated bounds: a linear-abstraction query over the exact polynomial normal forms of both sides '
                '(unsat = they coincide), or a nonlinear query with the path condition. Every path has a witness replayed on the unpatched code.'),
            functions_encoded=(meta or {}).get('functions', []), bounds=(meta or {}).get('bounds', ''), outside_bounds=(meta or {}).get('outside', ''),
            cases=len(results), paths_explored=tot['paths'], paths_infeasible=tot['infeasible'], obligations=tot['obligations'],
            discharged=tot['discharged'], queries_discharged=tot['unsat'], solver_queries=tot['queries'],
            linear_queries=tot['lra'], nonlinear_queries=tot['nra'], solver_unknown=tot['unknown'],
            polynomial_terms_compared=tot['terms'], path_witnesses_replayed=tot['witnessed'],
            symbolic_vs_real_values_compared=tot['validated'],
            solver_seconds=round(sum(r.stats.get('solver_s', 0) for r in results), 2),
            samples=[dict(case=r.name, status=r.status, paths=r.stats.get('paths'), obligations=r.stats.get('fam'), wall_s=r.wall)
                     for r in results],
            inconclusive=[f'{r.name}: {str(r.detail)[:300]}' for r in inc],
            known_findings=[k['id'] for k in known]),
        assumptions=getattr(mod, 'ASSUMPTIONS', [
            'arithmetic over exact reals; float constants recognised as k*sqrt(2)/2^m or taken as exact binary fractions',
            'numpy, scipy and jax primitives behave as their symbolic counterparts in /verif/symx (values compared with the real code on every run)']),
        wall_s=round(wall, 2), violations=len(viol))
    with open(os.path.join(d, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
