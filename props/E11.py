"""Cross-section modes: the matrix handed to the eigensolver, what is made of the eigenpairs, and Maxwell's equations of the result.

The eigensolver returns arbitrary pairs (lambda, v). What the code makes of them has to satisfy, for all lambda and v,
   Maxwell residual = (known factor) (lambda v - C v),
C the operator of the documentation, which is also the matrix handed over. So the fields of an eigenpair solve Maxwell's equations."""
from symx.harness import Case
from .E02 import avg
from .gridlib import *
from .modelib import Pairs, eigenpairs

FUNCTIONS = ['mode.ModeSolver.__init__', 'mode.ModeSolver.waveguide_mode_matrix', 'mode.ModeSolver.solve', 'mode.ModeSolver.e2h', 'mode.ModeSolver.h2e', 'mode.ModeSolver.dispersion_sweep',
             'mode.ModeLibrary.__init__', 'mode.ModeLibrary._update_solve', 'mode.ModeLibrary.update_wavelength', 'mode.ModeLibrary.h', 'mode.ModeLibrary.e', 'mode.ModeLibrary.beta',
             'mode.ModeLibrary.n', 'mode.ModeLibrary.ns', 'mode.ModeLibrary.dbeta', 'mode.ModeLibrary.dn', 'mode.ModeLibrary.phase', 'mode.ModeLibrary.beat_length', 'mode.ModeLibrary.evolve', 'mode.ModeLibrary._get_field_component', 'mode.ModeLibrary.sz',
             'mode.ModeLibrary.te_ratio', 'mode.ModeLibrary._check_num_modes', 'utils.poynting_fn', 'utils.curl_fn', 'grid.YeeGrid.deriv', 'grid.YeeGrid.curl_fn']


def setup(I, shape, fixed=False, top=None):
    sp = (0.5, 0.8)[:len(shape)] if fixed else spacings(I, shape)
    w = I.pos('wavelength', 0.5, 3.0)
    eps = eps_of(I, shape)
    if top is not None:  # the pixel of the largest permittivity (the code looks for it)
        x = eps.flatten()
        for i in range(len(x)):
            if i != top % len(x):
                I.assume(x[top] > x[i] + 1e-3)
    n3 = shape3(shape)
    F, B = ops(I, n3, tuple(sp) + (1,) * (3 - len(shape)))
    return sp, w, eps, n3, F, B, avg(I, eps.reshape(n3))


def operator(I, k0, eps, et, n3, F, B, ndim):
    """the operator of the documentation as a function on (hx, hy), or on the single component"""
    if ndim == 1:
        return lambda f: F(B(f, 0), 0) + k0 ** 2 * eps.reshape(n3) * f

    def C(hx, hy):
        ez = (B(hy, 0) - B(hx, 1)) / et[2]
        div = F(hx, 0) + F(hy, 1)
        return k0 ** 2 * et[1] * hx - et[1] * F(ez, 1) + B(div, 0), k0 ** 2 * et[0] * hy + et[0] * F(ez, 0) + B(div, 1)
    return C


def apply(C, ndim, n3, v):
    if ndim == 1:
        return C(v.reshape(n3))
    h = v.reshape((2, *n3))
    return C(h[0], h[1])


def matrix(I, shape, top=None):
    from simphox.mode import ModeSolver
    sp, w, eps, n3, F, B, et = setup(I, shape, top=top)
    g = ModeSolver(sizes(sp, shape), sp, wavelength=w, eps=eps)
    k0 = 2 * np.pi / w
    n = int(np.prod(shape)) * len(shape)
    v = I.cplxs('v', n)
    C = operator(I, k0, eps, et, n3, F, B, len(shape))
    ref = apply(C, len(shape), n3, v)
    ref = ref.flatten() if len(shape) == 1 else I.np.stack(ref).flatten()
    I.eq(g.C @ v, ref, 'mode operator')
    p = Pairs(I, order=[0])
    with eigenpairs(I, p):
        g.solve(1)
        g.solve(1, beta_guess=2.5)
    for c in p.calls:
        I.eq(c['A'] @ v, ref, 'matrix handed to the eigensolver')
        I.true(c['k'] == 1, 'number of modes asked for')
    top = eps.flatten()
    for x in top:
        I.le(k0 ** 2 * x, p.calls[0]['sigma'], 'modes nearest to the largest propagation constant', tol=1e-9)
    I.eq(p.calls[0]['sigma'], k0 ** 2 * I.np.max(top), 'largest propagation constant of the materials')
    I.eq(p.calls[1]['sigma'], 2.5 ** 2, 'guess of the propagation constant')


def maxwell(I, lab, e, h, beta, k0, et, n3, F0, B0, C, ndim):
    """fields varying as exp(-i beta z)"""
    F, B = [lambda x, a, D=D: -1j * beta * x if a == 2 else D(x, a) for D in (F0, B0)]
    I.eq(1j * k0 * et * e, curl(I, B, h), lab + 'Ampere')
    r = curl(I, F, e) + 1j * k0 * h
    cx, cy = C(h[0], h[1])
    dx, dy = beta ** 2 * h[0] - cx, beta ** 2 * h[1] - cy
    I.eq(1j * k0 * et[1] * r[0], dx, lab + 'Faraday up to the eigenvalue equation (x)')
    I.eq(1j * k0 * et[0] * r[1], dy, lab + 'Faraday up to the eigenvalue equation (y)')
    I.eq(F0(r[0], 0) + F0(r[1], 1) - 1j * beta * r[2], dx * 0, lab + 'Faraday up to the eigenvalue equation (z)')


def library(I, shape, k=1, sign='+', order=None, update=False, fixed=False, top=0):
    from simphox.mode import ModeSolver, ModeLibrary
    sp, w, eps, n3, F, B, et = setup(I, shape, fixed, top)
    p = Pairs(I, sign, order)
    with eigenpairs(I, p):
        lib = ModeLibrary(ModeSolver(sizes(sp, shape), sp, wavelength=w, eps=eps), k)
        if update:
            w = I.pos('wavelength2', 0.5, 3.0)
            out = lib.update_wavelength(w)
            I.true(out is lib, 'updated library is returned')
    k0 = 2 * np.pi / w
    nd = len(shape)
    C = operator(I, k0, eps, et, n3, F, B, nd)
    c = p.calls[-1]
    I.eq(c['A'] @ I.arr(np.array([1.0] * c['A'].shape[0])), _flat(I, apply(C, nd, n3, I.arr(np.array([1.0 + 0j] * c['A'].shape[0])))), 'operator of the wavelength')
    use = [i for i in (order or range(k)) if c['vals'][i] > 0]
    I.true(lib.m == len(lib.betas) == lib.num_modes == len(use), 'modes that do not propagate are left out')
    for m, i in enumerate(use):
        beta = lib.betas[m]
        I.eq(beta ** 2, c['vals'][i], 'propagation constant')
        I.true(beta > 0, 'forward propagation')
        I.eq(lib.beta(m), beta, 'beta')
        I.eq(lib.n(m) * k0, beta, 'effective index')
        I.eq(lib.ns[m] * k0, beta, 'effective indices')
        length = I.pos('length', 0.1, 10.0)
        I.eq(lib.phase(length, m), beta * length, 'phase over a length')
        v = c['vecs'][:, i]
        h, e = lib.h(m), lib.e(m)
        n = int(np.prod(shape))
        I.true(h.shape == e.shape == (3, *n3), 'shape of the fields')
        t = h[:2].flatten() if nd == 2 else h[1].flatten()
        # the mode is the eigenvector up to a phase, which makes its first component positive
        I.eq(t * v[0], I.arr(v) * t[0], 'mode is the eigenvector', tol=1e-7)
        I.eq(abs(t[0]) ** 2, abs(v[0]) ** 2, 'norm of the mode', tol=1e-7)
        if nd == 2:
            maxwell(I, '', e, h, beta, k0, et, n3, F, B, C, nd)
        else:
            Fb, Bb = [lambda x, a, D=D: -1j * beta * x if a == 2 else D(x, a) for D in (F, B)]
            I.eq(h[0], h[0] * 0, 'TM mode has one magnetic component')
            I.eq(h[2], h[0] * 0, 'TM mode has one magnetic component')
            I.eq(1j * k0 * et * e, curl(I, Bb, h), 'TM: Ampere')
            e, h = lib.e(m, tm_2d=False), lib.h(m, tm_2d=False)
            I.eq(e[0], h[0] * 0, 'TE mode has one electric component')
            I.eq(e[2], h[0] * 0, 'TE mode has one electric component')
            I.eq(e[1].flatten(), t, 'TE: field is the mode')
            I.eq(-1j * k0 * h, curl(I, Fb, e), 'TE: Faraday')
            r = curl(I, Bb, h) - 1j * k0 * eps.reshape(n3) * e
            I.eq(1j * k0 * r[1], C(e[1]) - beta ** 2 * e[1], 'TE: Ampere up to the eigenvalue equation')
    for m in (len(use), len(use) + 3):
        for f in (lib.e, lib.h, lib.beta, lib.n):
            try:
                f(m)
            except ValueError:
                I.true(True, 'mode out of range refused')
            else:
                I.true(False, 'mode out of range refused')
    for a, b in zip(range(len(use)), range(1, len(use))):
        I.true(lib.betas[a] >= lib.betas[b], 'largest propagation constant first')
    if len(use) > 1:
        I.eq(lib.dbeta, lib.betas[0] - lib.betas[1], 'difference of the propagation constants')
        I.eq(lib.dn * k0, lib.betas[0] - lib.betas[1], 'difference of the indices')
        I.eq(lib.beat_length() * (lib.betas[0] - lib.betas[1]), 2 * np.pi, 'beat length')


def _flat(I, x):
    return x.flatten() if not isinstance(x, tuple) else I.np.stack(x).flatten()


def sweep(I, shape, k=1, pbar=False, fixed=False, top=0):
    """a sweep is a list of solutions at its wavelengths"""
    from simphox.mode import ModeSolver
    sp, w, eps, n3, F, B, et = setup(I, shape, fixed, top)
    ws = I.poss('ws', 2, lo=0.5, hi=3.0)
    p = Pairs(I, order=list(range(k)))
    g = ModeSolver(sizes(sp, shape), sp, wavelength=w, eps=eps)
    with eigenpairs(I, p):
        sols = g.dispersion_sweep(ws, m=k, **(dict(pbar=lambda x: iter(x)) if pbar else {}))
    I.true(len(sols) == len(p.calls) == 2, 'one solution per wavelength')
    one = I.cplxs('probe', int(np.prod(shape)) * len(shape))
    for i in range(2):
        k0 = 2 * np.pi / ws[i]
        I.eq(p.calls[i]['A'] @ one, _flat(I, apply(operator(I, k0, eps, et, n3, F, B, len(shape)), len(shape), n3, one)), 'operator of the wavelength')
        I.true(len(sols[i][0]) == k, 'modes of the wavelength')
        for m in range(k):
            I.eq(sols[i][0][m] ** 2, p.calls[i]['vals'][m], 'propagation constant')
    I.eq(g.wavelength, w, 'wavelength of the solver')


def evolution(I, shape, k=2, lengths=1, top=0):
    """superpositions of modes travel with the phases of their modes"""
    from simphox.mode import ModeSolver, ModeLibrary
    sp, w, eps, n3, F, B, et = setup(I, shape, fixed=True, top=top)
    p = Pairs(I, order=list(range(k)))
    with eigenpairs(I, p):
        lib = ModeLibrary(ModeSolver(sizes(sp, shape), sp, wavelength=w, eps=eps), k)
    ls = I.poss('length', lengths, lo=0.1, hi=10.0)
    a = I.cplxs('a', k)
    beta, h, e = lib.betas, [lib.h(m) for m in range(k)], [lib.e(m) for m in range(k)]
    ev = lambda x, *b, **kw: lib.evolve(x, *b, **kw)
    for use_h, f in ((True, h), (False, e)):
        ref = [sum(a[m] * f[m] * I.cis(beta[m] * x) for m in range(k)) for x in ls]
        out = ev(ls, tuple(a), use_h=use_h)
        I.eq(out, I.np.stack(ref, axis=-1), 'fields at all the lengths')
        I.eq(I.np.squeeze(ev(ls[0], tuple(a), use_h=use_h)), I.np.squeeze(ref[0]), 'field at one length')
    I.eq(I.np.squeeze(ev(ls[-1])), I.np.squeeze(h[0] * I.cis(beta[0] * ls[-1])), 'fundamental mode by default')
    for m in range(k):
        for axis in range(3):
            for q in (axis, 'xyz'[axis]):
                for use_h, f, c in ((True, h, 'h'), (False, e, 'e')):
                    x, lab = lib._get_field_component(m, q, use_h)
                    I.eq(x, f[m][axis].squeeze(), 'component of the field')
                    I.true(lab == f'${c}_{"xyz"[axis]}$', 'label of the component')


def ranged(I, shape, order, found):
    """modes asked for by a range of propagation constants: those the eigensolver found, not what else is in its memory"""
    import simphox.mode as m
    sp, w, eps, n3, F, B, et = setup(I, shape, True, 0)
    g = m.ModeSolver(sizes(sp, shape), sp, wavelength=w, eps=eps)
    k, calls = len(order), []
    lo, hi = 2.0, 6.0
    nv = int(np.prod(shape)) * len(shape)

    def solve(A, erange, k=6, symmetric=True):
        vals = [I.pos('lam%d' % i, lo ** 2, hi ** 2) for i in range(found)] + [I.pos('left%d' % i, 0.05, 300.0) for i in range(found, k)]
        for i, j in zip(order, order[1:]):
            I.assume(vals[i] - vals[j] > 1e-2)
        x = I.cplxs('v', nv, k)
        calls.append((A, erange, k, vals, x.copy()))
        e = I.arr(vals) if I.sym else np.array([float(q) for q in vals])
        return e, x, found, 3, I.arr([0.0] * k), 0
    old = m.feast_eigs
    m.feast_eigs = solve
    try:
        betas, h = g.solve(k, beta_guess=(lo, hi))
    finally:
        m.feast_eigs = old
    A, erange, kk, vals, x = calls[0]
    v = I.cplxs('u', nv)
    I.eq(A @ v, g.C @ v, 'matrix handed to the eigensolver')
    I.true(len(calls) == 1 and kk == k, 'number of modes asked for')
    I.true(tuple(float(q) for q in erange) == (lo ** 2, hi ** 2), 'range of the eigenvalues')
    I.true(np.shape(betas) == (found,) and len(h) == found, 'only the modes found')
    if np.shape(betas) == (found,):
        for p, i in enumerate([i for i in order if i < found]):
            I.eq(betas[p] ** 2, vals[i], 'propagation constant of the mode')
            f, ref = h[p][:nv], x[:, i]
            I.eq(f * ref[0], f[0] * ref, 'profile of the mode up to its phase')


def power(I, shape, top=0):
    """z component of the Poynting vector and polarisation"""
    from simphox.mode import ModeSolver, ModeLibrary
    sp, w, eps, n3, F, B, et = setup(I, shape, top=top)
    p = Pairs(I)
    with eigenpairs(I, p):
        lib = ModeLibrary(ModeSolver(sizes(sp, shape), sp, wavelength=w, eps=eps), 1)
    e, h = lib.e(0), lib.h(0)
    up = lambda f, a: (f + np.roll(f, 1, axis=a)) / 2
    hc = h.conj() if not I.sym else I.np.conj(h)
    ref = up(e[0], 1) * up(hc[1], 1) - up(e[1], 0) * up(hc[0], 0)
    I.eq(lib.sz(0), ref.squeeze(), 'Poynting vector')
    if len(shape) == 2:
        r = lib.te_ratio(0)[0]
        a, b = [(h[i] * hc[i]).sum() for i in (0, 1)]
        I.eq(r * (a + b), a, 'share of the x component')


def flow(I, axis, jax, shape=(2, 3, 2)):
    """the power flow along an axis is that component of E x H*, of fields averaged to a common point, whichever axis is asked for"""
    from simphox.utils import poynting_fn
    e, h = I.cplxs('e', 3, *shape), I.cplxs('h', 3, *shape)
    fn = poynting_fn(axis, jax)
    got = fn(I.jarr(e), I.jarr(h)) if jax else fn(e.copy(), h.copy())
    a, b = (axis + 1) % 3, (axis + 2) % 3
    up = lambda f, k: (f + np.roll(f, 1, axis=k)) / 2
    hc = I.np.conj(h)
    I.eq(got, up(e[a], b) * up(hc[b], b) - up(e[b], a) * up(hc[a], a), 'power flow')


def cases(tier):
    s1, s2 = [(4,), (5,)], [(3, 2), (2, 3), (3, 3)]
    if tier != 'quick':
        s1 += [(9,)]
        s2 += [(4, 3), (4, 4)]
    cs = [Case(matrix, shape=(4,))] + [Case(matrix, shape=s, top=t) for s in s1 + s2 for t in (0, 2) if t == 0 or np.prod(s) < 9]
    cs += [Case(library, shape=s, fixed=np.prod(s) > 6) for s in s1 + s2]
    cs += [Case(library, shape=s, update=True, fixed=len(s) > 1) for s in ((4,), (2, 3))]
    cs += [Case(library, shape=(4,), k=2, order=o) for o in ([0, 1], [1, 0])]
    cs += [Case(library, shape=(4,), k=3, order=o, sign=g) for o in ([0, 1, 2], [1, 2, 0], [2, 1, 0]) for g in ('+-+', '-++', '--+', '++-') if ordered(o, g)]
    cs += [Case(library, shape=(2, 2), k=2, order=[1, 0]), Case(library, shape=(2, 2), k=3, order=[2, 1, 0], sign='-++')]
    cs += [Case(sweep, shape=s, k=k, pbar=b, fixed=len(s) > 1) for s, k, b in (((4,), 1, False), ((4,), 2, True), ((2, 3), 1, False))]
    cs += [Case(power, shape=s) for s in ((4,), (3, 2))]
    cs += [Case(flow, axis=a, jax=j) for a in (0, 1, 2) for j in (False, True)]
    cs += [Case(evolution, shape=s, k=k, lengths=n) for s, k, n in (((4,), 1, 1), ((4,), 2, 2), ((5,), 3, 2), ((2, 2), 2, 2))]
    cs += [Case(ranged, shape=s, order=o, found=f) for s, o, f in (((4,), [0, 1], 2), ((4,), [1, 0], 1), ((4,), [0, 2, 1], 2), ((2, 2), [1, 0], 1))]
    return cs


def ordered(order, sign):
    """positive eigenvalues come first in the order"""
    s = [sign[i] for i in order]
    return '-+' not in ''.join(s)
