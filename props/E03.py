"""The fields returned by the FDFD solver satisfy Maxwell's equations of the grid for the given source.

The fields are chosen freely (symbolic) and the source is built from them, so that every source of an invertible system is covered;
the linear solver is replaced by its contract (A x = b), the replay runs the real one."""
import contextlib

from symx.harness import BadPoint, Case
from symx.sparse import solving, SOLVER
from .E02 import FUNCTIONS as F2
from .E02 import fdfd, avg
from .gridlib import *

FUNCTIONS = F2 + ['fdfd.FDFD.solve', 'fdfd.FDFD.e2h', 'fdfd.FDFD.h2e', 'grid.YeeGrid.diff_fn', 'utils.curl_fn']


@contextlib.contextmanager
def run(I, x):
    if I.sym:
        with solving(x, I=I):
            yield
        return
    try:
        yield
    except RuntimeError as e:
        if 'perturbed pivot' in str(e):  # the library refuses a (nearly) singular system
            raise BadPoint('singular system')
        raise


def solver_of(kind):
    """explicit solver given by the user, or the default"""
    if kind == 'default':
        return None
    import scipy.sparse.linalg as l
    from symx.sparse import solve
    return lambda a, b: solve(a, b) if SOLVER.candidates is not None else l.spsolve(a.tocsc(), b)


def vector(I, shape, solver='default', flat=False, **k):
    g, n3, k0, F, B, et = fdfd(I, shape, **k)
    e = I.cplxs('e', 3, *n3)
    src = (curl(I, B, curl(I, F, e)) - k0 ** 2 * et * e) / k0
    with run(I, e):
        f = g.solve(src.flatten() if flat else src, solver_fn=solver_of(solver))
    I.eq(f[0], e, 'electric field solves the system')
    I.eq(-1j * k0 * f[1], curl(I, F, f[0]), "Faraday's law")
    I.eq(curl(I, B, f[1]), 1j * k0 * et * f[0] + 1j * src, "Ampere's law with the source current")


def te(I, shape, solver='default', **k):
    g, n3, k0, F, B, et = fdfd(I, shape, **k)
    ez = I.cplxs('e', *n3)
    e = I.np.stack([ez * 0, ez * 0, ez])
    src = (curl(I, B, curl(I, F, e))[2] - k0 ** 2 * et[2] * ez) / k0
    with run(I, ez):
        f = g.solve(src.reshape(shape), tm_2d=False, solver_fn=solver_of(solver))
    I.eq(f[0], e, 'electric field solves the system')
    I.eq(-1j * k0 * f[1], curl(I, F, f[0]), "Faraday's law")
    I.eq(curl(I, B, f[1])[2], 1j * k0 * et[2] * f[0][2] + 1j * src, "Ampere's law with the source current")


def tm(I, shape, solver='default', **k):
    g, n3, k0, F, B, et = fdfd(I, shape, **k)
    hz = I.cplxs('h', *n3)
    h = I.np.stack([hz * 0, hz * 0, hz])
    src = (curl(I, B, curl(I, F, h) / et)[2] - k0 ** 2 * hz) / k0
    with run(I, hz):
        f = g.solve(src.reshape(shape), solver_fn=solver_of(solver))
    I.eq(f[1], h, 'magnetic field solves the system')
    I.eq(1j * k0 * et * f[0], curl(I, B, f[1]), "Ampere's law")


def faraday_tm(I, shape, **k):
    """the other equation of the TM problem, with the source as magnetic current"""
    g, n3, k0, F, B, et = fdfd(I, shape, **k)
    hz = I.cplxs('h', *n3)
    h = I.np.stack([hz * 0, hz * 0, hz])
    with run(I, hz):
        f = g.solve((g.mat_hz @ hz.flatten() / k0).reshape(shape))
    src = (g.mat_hz @ hz.flatten() / k0).reshape(n3)
    I.eq(curl(I, F, f[0])[2], -1j * k0 * f[1][2] - 1j * src, "Faraday's law with the source current")


def convert(I, shape, beta=False, flat=False, **k):
    """conversions between the fields, also of modes that vary as exp(-i beta z)"""
    g, n3, k0, F, B, et = fdfd(I, shape, **k)
    f = I.cplxs('f', 3, *n3)
    b = I.real('beta') if beta else None
    if beta:
        F, B = [lambda x, a, D=D: -1j * b * x if a == 2 else D(x, a) for D in (F, B)]
    x = f.flatten() if flat else f
    I.eq(-1j * k0 * g.e2h(x, beta=b), curl(I, F, f), 'magnetic from electric field')
    I.eq(1j * k0 * et * g.h2e(x, beta=b), curl(I, B, f), 'electric from magnetic field')


def rejects(I, shape, size):
    """a source of the wrong size is refused"""
    g, n3, k0, F, B, et = fdfd(I, shape)
    src = I.cplxs('s', size)
    for t in (True, False):
        try:
            with run(I, src):
                g.solve(src, tm_2d=t)
        except ValueError:
            I.true(True, 'wrong size refused')
        else:
            I.true(False, 'wrong size refused')


def without_mkl(I, shape, jax):
    """the same when the Intel library cannot be loaded"""
    import importlib.util
    import sys
    import simphox.fdfd as real
    saved = {k: sys.modules.get(k) for k in ('simphox.mkl', 'simphox.primitives', 'simphox.fdfd')}
    from symx.harness import unpatched

    class Absent:
        def find_spec(self, name, path=None, target=None):
            if name == 'simphox.mkl':
                raise OSError('libmkl_rt.so: cannot open shared object file')

    finder = Absent()
    import simphox
    mods = {}
    with unpatched():
        sys.meta_path.insert(0, finder)
        for k in saved:
            sys.modules.pop(k, None)
        try:
            import simphox.primitives
            import simphox.fdfd
            mods = {k: sys.modules[k] for k in ('simphox.primitives', 'simphox.fdfd')}
        except Exception as e:
            mods = {'error': e}
        finally:
            sys.meta_path.remove(finder)
            for k, v in saved.items():
                if v is not None:
                    sys.modules[k] = v
                    setattr(simphox, k.split('.')[1], v)
    if 'error' in mods:
        I.true(False, 'imports without the Intel library')
        return
    from symx.harness import patched
    mods['simphox.fdfd'].config = None
    sys.modules['simphox.fdfd_nomkl'], sys.modules['simphox.primitives_nomkl'] = mods['simphox.fdfd'], mods['simphox.primitives']
    try:
        with (patched() if I.sym else contextlib.nullcontext()):
            FDFD = mods['simphox.fdfd'].FDFD
            w, eps, ez = I.pos('wavelength', 0.5, 3.0), eps_of(I, shape), I.cplxs('e', *shape3(shape))
            g = FDFD(tuple(0.5 * n for n in shape), 0.5, wavelength=w, eps=eps)
            n3 = shape3(shape)
            src = (g.mat_ez @ ez.flatten() / (2 * np.pi / w)).reshape(shape)
            with run(I, ez):
                f = g.get_fields_fn(I.jarr(src), tm_2d=False)(I.jarr(eps)) if jax else g.solve(src, tm_2d=False)
            I.eq(f[0][2] if not jax else I.np.array(f[0][2]) if I.sym else np.asarray(f[0][2]), ez, 'solves without the Intel library')
    finally:
        for k in ('simphox.fdfd_nomkl', 'simphox.primitives_nomkl'):
            sys.modules.pop(k, None)


def cases(tier):
    s2 = [(4,), (3, 3), (2, 4), (3, 1)]
    s3 = [(2, 2, 2), (3, 2, 2)]
    if tier != 'quick':
        s2 += [(8,), (4, 5)]
        s3 += [(3, 3, 3), (2, 3, 4)]
    cs = [Case(f, shape=s, bloch=b) for f in (te, tm) for s in s2 for b in (False, True)]
    cs += [Case(vector, shape=s, bloch=b) for s in s3 for b in ('', 'x', 'yz', 'xyz')] + [Case(vector, shape=(2, 2, 2), flat=True)]
    cs += [Case(te, shape=(3, 3), cplx=True), Case(tm, shape=(2, 2), cplx=True), Case(vector, shape=(2, 2, 2), cplx=True)]
    cs += [Case(te, shape=(3, 3), solver='given'), Case(tm, shape=(3, 3), solver='given'), Case(vector, shape=(2, 2, 2), solver='given')]
    cs += [Case(f, shape=(10,), pml='sym') for f in (te, tm)] + [Case(f, shape=(10, 11), pml='fixed') for f in (te, tm)]
    cs += [Case(faraday_tm, shape=(4,))]
    cs += [Case(convert, shape=s, beta=b, flat=fl) for s, b, fl in (((4,), True, False), ((3, 3), True, True), ((3, 3), False, False), ((2, 3, 2), False, True), ((2, 2, 2), False, False))]
    cs += [Case(convert, shape=(3, 2), bloch=True)]
    cs += [Case(rejects, shape=s, size=n) for s, n in (((4,), 5), ((3, 3), 27), ((2, 2, 2), 8))]
    cs += [Case(without_mkl, shape=(2, 2), jax=j) for j in (False, True)]
    return cs
