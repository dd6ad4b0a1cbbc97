"""A step of the FDTD is the leapfrog step of Maxwell's equations on the grid; without sources and absorbing layers it conserves
energy and charge. The state before the step is arbitrary, so the statements hold after any number of steps."""
from symx.harness import Case
from symx.nd import SA, plain
from .E02 import avg
from .gridlib import *

FUNCTIONS = ['fdtd.FDTD.__init__', 'fdtd.FDTD.zero_state', 'fdtd.FDTD.step', 'fdtd.FDTD._step_e', 'fdtd.FDTD._step_h', 'fdtd.FDTD._set_pml', 'fdtd.FDTD.curl_e_pml', 'fdtd.FDTD.curl_h_pml',
             'fdtd.FDTD.eps_t', 'utils.curl_pml_fn', 'utils.curl_fn', 'utils.pml_sigma', 'utils.yee_avg', 'utils.yee_avg_jax', 'grid.YeeGrid.diff_fn']


def np_of(I, x):
    return plain(x).view(SA) if I.sym else np.asarray(x)


def fields(I, name, *s, real=False):
    """arbitrary fields; real ones (of complex type) where the complex ones are too many"""
    if not real:
        return I.cplxs(name, *s)
    x = I.reals(name, *s)
    return x if I.sym else x + 0j


def state(I, n3, jax=False, real=False):
    j = I.jarr if jax else lambda x: x
    return fields(I, 'e', 3, *n3, real=real), fields(I, 'h', 3, *n3, real=real), j


def sources(I, kind, n3, jax):
    """sources as the documentation has them: electric part, magnetic part, region"""
    if kind is None:
        return [], 0, 0
    xs = []
    je, jh = [I.arr(np.zeros((3, *n3), dtype=object if I.sym else complex)) for _ in range(2)]
    regions = {'cell': [(slice(None), n3[0] // 2, n3[1] - 1, 0)],
               'block': [(slice(None), slice(0, 2), slice(0, min(2, n3[1])), slice(0, 1))],
               'line': [(slice(None), n3[0] - 1, slice(None), 0)],
               'two': [(slice(None), slice(0, 2), 0, slice(None)), (slice(None), slice(1, 3), slice(None), slice(None))]}[kind]
    for k, r in enumerate(regions):
        shape = je[r].shape
        a, b = I.cplxs(f'je{k}', *shape), I.cplxs(f'jh{k}', *shape)
        if k == 1:
            b = None  # no magnetic part
        je[r] = je[r] + a
        if b is not None:
            jh[r] = jh[r] + b
        g = (lambda x: x if x is None else I.jarr(x)) if jax else lambda x: x
        xs.append((g(a), g(b), r))
    return xs, je, jh


def grid(I, shape, jax):
    from simphox.fdtd import FDTD
    sp = spacings(I, shape)
    eps = eps_of(I, shape)
    g = FDTD(sizes(sp, shape), sp, eps=eps, use_jax=jax)
    n3 = shape3(shape)
    F, B = ops(I, n3, tuple(sp) + (1,) * (3 - len(shape)))
    return g, n3, sp, F, B, eps


def values(I, shape, fixed=False):
    """two permittivities, alternating"""
    a, b = (2.25, 4.0) if fixed else (I.pos('eps0', 0.5, 12.0), I.pos('eps1', 0.5, 12.0))
    return I.arr(np.resize(np.array([a, b, b], dtype=object if I.sym and not fixed else float), shape))


def step(I, shape, jax=False, src=None, edit=False):
    g, n3, sp, F, B, eps = grid(I, shape, jax)
    if edit:
        g.step(g.zero_state, [])
        eps = I.poss('eps2', *shape, lo=0.5, hi=12.0)
        g.eps = eps
    et = avg(I, eps.reshape(n3))
    e, h, j = state(I, n3, jax=jax)
    e0, h0 = e.copy(), h.copy()
    xs, je, jh = sources(I, src, n3, jax)
    s = (j(e), j(h), None, None)
    e1, h1, p1, q1 = g.step(s, xs)
    ref_e = e0 + g.dt / et * (curl(I, B, h0) - je)
    ref_h = h0 - g.dt * (curl(I, F, ref_e) + jh)
    I.eq(np_of(I, e1), ref_e, 'electric field')
    I.eq(np_of(I, h1), ref_h, 'magnetic field')
    I.eq(np_of(I, s[0]), e0, 'given state unchanged (electric)')
    I.eq(np_of(I, s[1]), h0, 'given state unchanged (magnetic)')
    I.true(p1 is None and q1 is None, 'no auxiliary field without absorbing layers')


def conserved(I, shape, jax=False):
    """energy and charge before and after a step"""
    from simphox.fdtd import FDTD
    n3, sp = shape3(shape), (0.5, 0.8, 0.6)[:len(shape)]
    eps = values(I, shape)
    g = FDTD(sizes(sp, shape), sp, eps=eps, use_jax=jax)
    F, B = ops(I, n3, sp + (1,) * (3 - len(shape)))
    et = avg(I, eps.reshape(n3))
    e, h, j = state(I, n3, jax=jax, real=True)
    e0, h0 = e.copy(), h.copy()
    e1, h1, _, _ = (np_of(I, x) if x is not None else None for x in g.step((j(e), j(h), None, None), []))

    def energy(e, h):
        before = h + g.dt * curl(I, F, e)  # the magnetic field half a step before e
        return (et * (e * e.conj())).sum() + I.np.real((before.conj() * h).sum())

    I.eq(energy(e1, h1), energy(e0, h0), 'energy')
    div = lambda d, f: d(f[0], 0) + d(f[1], 1) + d(f[2], 2)
    I.eq(div(B, et * e1), div(B, et * e0), 'electric charge')
    I.eq(div(F, h1), div(F, h0), 'magnetic charge')


def courant(I, shape, jax):
    g, n3, sp, F, B, eps = grid(I, shape, jax)
    I.le(g.dt ** 2 * sum(1 / d ** 2 for d in sp), 1, 'stable time step')
    I.le(0.25, g.dt ** 2 * sum(1 / d ** 2 for d in sp), 'time step of the order of the limit')
    z = g.zero_state
    for x in z[:2]:
        x = np_of(I, x)
        I.true(x.shape == (3, *n3), 'shape of the fields')
        I.eq(x, x * 0, 'initial state is zero')


def pml_ref(n, d, t, dt, params):
    """recursion coefficients b, c of the auxiliary fields on half-integer (e) and integer (h) positions, from the documented grading"""
    m, lnr, corr = params
    out = []
    for off in (0.5, 0.0):
        x = (np.arange(n) + off) * d
        u = np.zeros(n)
        u[:t] = (x[t] - x[:t]) / x[t]
        u[n - t:] = (x[n - t:] - x[n - t]) / (n * d - x[n - t])
        sigma = -(m + 1) * u ** m * lnr / 2 / corr
        b = np.exp(-(sigma + 1e-8) * dt)
        out.append((b, (b - 1) * sigma / (sigma + 1e-8)))
    return out


def layers(I, shape, jax=False, params=(3, -25, 1), steps=1, src=None, real=False):
    """the recursion of the documentation on the layers, the plain step elsewhere"""
    from simphox.fdtd import FDTD
    t, d = 4, 0.5
    ee = values(I, shape, fixed=real or steps > 1)
    g = FDTD(tuple(d * n for n in shape), d, eps=ee, pml=tuple(t * d for _ in shape), pml_params=params, use_jax=jax)
    n3 = shape3(shape)
    F, B = ops(I, n3, (d,) * len(shape) + (1,) * (3 - len(shape)))
    et = avg(I, ee.reshape(n3))
    e, h, j = state(I, n3, jax=jax, real=real)
    coef = [pml_ref(n, d, t, g.dt, params) for n in shape]
    z = g.zero_state
    # auxiliary fields: derivative j of component k of the other field, arbitrary on the layers
    pairs = [(1, 2), (2, 1), (2, 0), (0, 2), (0, 1), (1, 0)]
    psi = {}
    given = []
    for f in (0, 1):
        lst = []
        for a in range(len(shape)):
            for side in (0, 1):
                s3 = list(n3)
                s3[a] = t
                p = I.arr(np.zeros((6, *s3), dtype=object if I.sym else complex))
                for i, (ax, k) in enumerate(pairs):
                    if ax != a:
                        continue  # stays zero
                    p[i] = fields(I, f'p{f}_{a}{side}{i}', *s3, real=real)
                lst.append(j(p))
                for i, (ax, k) in enumerate(pairs):
                    if ax == a:
                        psi.setdefault((f, i), I.arr(np.zeros(n3, dtype=object if I.sym else complex)))
                        where = [slice(None)] * 3
                        where[a] = slice(0, t) if side == 0 else slice(n3[a] - t, None)
                        psi[f, i][tuple(where)] = p[i]
        given.append(lst)
    for f in (0, 1):
        I.true(len(z[2 + f]) == len(given[f]) and all(np_of(I, x).shape == np_of(I, y).shape for x, y in zip(z[2 + f], given[f])), 'shape of the auxiliary fields')
        for x in z[2 + f]:
            I.eq(np_of(I, x), np_of(I, x) * 0, 'initial state is zero')
    s = (j(e), j(h), list(given[0]), list(given[1]))
    keep = [np_of(I, x).copy() for x in given[0] + given[1]]
    xs, je, jh = sources(I, src, n3, jax)

    def stretched(f, D, v):
        """curl with the accumulated corrections"""
        for i, (ax, k) in enumerate(pairs):
            if (f, i) not in psi:
                continue
            b, c = (x.reshape([-1 if y == ax else 1 for y in range(3)]) for x in coef[ax][1 - f])
            inside = (np.abs(c) > 0) | np.isin(np.arange(n3[ax]), [*range(t), *range(n3[ax] - t, n3[ax])]).reshape(c.shape)
            psi[f, i] = (b * psi[f, i] + c * D(v[k], ax)) * inside
        total = curl(I, D, v)
        p = lambda i: psi.get((f, i), 0)
        return total + I.np.stack([total[0] * 0 + p(0) - p(1), total[0] * 0 + p(2) - p(3), total[0] * 0 + p(4) - p(5)])

    re, rh = e.copy(), h.copy()
    e0, h0 = e.copy(), h.copy()
    for _ in range(steps):
        s0 = s
        s = g.step(s, xs)
        re = re + g.dt / et * (stretched(0, B, rh) - je)
        rh = rh - g.dt * (stretched(1, F, re) + jh)
        if _ == 0:
            I.eq(np_of(I, s0[0]), e0, 'given state unchanged (electric)')
            I.eq(np_of(I, s0[1]), h0, 'given state unchanged (magnetic)')
            for x, y in zip(s0[2] + s0[3], keep):
                I.eq(np_of(I, x), y, 'given state unchanged (auxiliary)')
    I.eq(np_of(I, s[0]), re, 'electric field')
    I.eq(np_of(I, s[1]), rh, 'magnetic field')


def cases(tier):
    shapes = [(4,), (3, 3), (3, 1), (2, 3), (2, 2, 2), (3, 2, 2)]
    if tier != 'quick':
        shapes += [(8,), (5, 4), (3, 3, 3), (4, 3, 2)]
    cs = [Case(step, shape=s, jax=j) for s in shapes for j in (False, True)]
    cs += [Case(step, shape=s, jax=j, src=k) for s, k in (((3, 3), 'cell'), ((3, 3), 'two'), ((2, 2, 2), 'block'), ((3, 2, 2), 'line')) for j in (False, True)]
    cs += [Case(step, shape=(3, 2), jax=j, edit=True) for j in (False, True)]
    cs += [Case(conserved, shape=s, jax=j) for s in shapes for j in (False, True)]
    cs += [Case(courant, shape=s, jax=j) for s in ((4,), (3, 1), (2, 3), (2, 2, 2)) for j in (False, True)]
    cs += [Case(layers, shape=(10,), jax=j) for j in (False, True)]
    cs += [Case(layers, shape=(10,), jax=j, params=p, steps=2) for j in (False, True) for p in ((3, -25, 1), (4, -16, 2))]
    cs += [Case(layers, shape=(10, 11), jax=j, real=True) for j in (False, True)] + [Case(layers, shape=(10, 10), src='two', real=True)]
    return cs
