"""Noise of simulated hardware: phase errors and measurement noise act where and in the proportion declared, one draw for each."""
from symx.harness import Case
from .meshlib import *
from .C12 import drawing

FUNCTIONS = ['ForwardMesh.phases', 'ForwardMesh.in_situ_matrix_fn', 'ForwardMesh.phase_shift_localize']


class Draws:
    """each call draws symbols of its own"""
    def __init__(self, I, make):
        self.I, self.make, self.log = I, make, []

    def __call__(self, *shape):
        n = int(np.prod(shape)) if shape else 1
        k = sum(len(x) for x in self.log)
        z = [self.make(k + i) for i in range(n)]
        self.log.append(z)
        if not shape:
            return z[0]
        return self.I.arr(z).reshape(shape)

    @property
    def all(self):
        return [z for x in self.log for z in x]


def same(I, x, y):
    c = x == y if I.sym else abs(x - y) < 1e-6
    return c is True or (not I.sym and bool(c))


def own_draws(I, diffs, e, zs, label):
    """each difference is e times a draw of its own (normal numbers are symmetric: either sign)"""
    used = set()
    for q, d in enumerate(diffs):
        hit = [j for j, z in enumerate(zs) if same(I, d, e * z) or same(I, d, -e * z)]
        hit.sort(key=lambda j: j in used)       # at a point, numbers may coincide
        if not hit:
            I.eq(d, e * zs[min(q, len(zs) - 1)], label)
            continue
        used.add(hit[0])
        I.eq(d, e * zs[hit[0]] if same(I, d, e * zs[hit[0]]) else -e * zs[hit[0]], label)
    I.true(len(used) == len(diffs), label + ': a draw for each')


def phases(I, arch, n, constant, gamma):
    mesh = make(arch, n, 'top')
    m = mesh.num_nodes
    p = (I.reals('t', m), I.reals('p', m), I.reals('g', n))
    mesh.params = p
    e = I.pos('e', 0.01, 1.0)
    with drawing(I, Draws(I, lambda k: I.real('y%d' % k, lo=-2.0, hi=2.0))):
        none = mesh.phases()
    for k, nm in enumerate(('theta', 'phi', 'gamma')):
        I.eq(none[k], p[k], 'no error, the settings (%s)' % nm)
    d = Draws(I, lambda k: I.real('z%d' % k, lo=-2.0, hi=2.0))
    with drawing(I, d):
        got = mesh.phases(e, constant, gamma)
    for k, nm in enumerate(('theta', 'phi', 'gamma')):
        I.eq(mesh.params[k], p[k], 'the settings of the mesh stay (%s)' % nm)
        if nm == 'gamma' and not gamma:
            I.eq(got[k], p[k], 'output phases without error')
        elif constant:
            I.eq(got[k], p[k] + e, 'the same error for all (%s)' % nm)
        else:
            own_draws(I, list(got[k] - p[k]), e, d.all, 'error of ' + nm)


def fields(I, mesh):
    p = sym_params(I, mesh)
    err, loss = sym_errors(I, mesh), np.zeros((mesh.num_nodes, 2))
    m = mesh.matrix_fn()(p, np.eye(mesh.n) + 0j, err, loss)
    a = I.polars('a', mesh.n)
    return p, err, loss, a, m.conj().T @ a


def outputs(I, arch, n, style, what):
    """output fields a are measured as a |1 + amplitude error| exp(i pi phase error)"""
    mesh = make(arch, n, style)
    p, err, loss, a, x = fields(I, mesh)
    if what == 'amplitude':
        s = I.pos('s', 0.01, 0.2)
        d = Draws(I, lambda k: I.real('z%d' % k, lo=-2.0, hi=2.0))
        with drawing(I, d):
            y = mesh.in_situ_matrix_fn(io_amp_error_std=s)(p, x, err, loss).reshape(-1)
        r = [(y[k] * I.np.conj(a[k])).real / (I.np.abs(a[k]) ** 2) for k in range(n)]
        for k in range(n):
            I.eq((y[k] * I.np.conj(a[k])).imag, 0, 'amplitude errors keep phases')
        own_draws(I, [q - 1 for q in r], s, d.all, 'amplitude error')
    else:
        d, c = turns(I)
        with drawing(I, d):
            y = mesh.in_situ_matrix_fn(io_phase_error_std=0.5)(p, x, err, loss).reshape(-1)
        turned(I, y, a, c, 'phase error')


def turns(I):
    """draws that turn a phase of deviation one half by an angle of their own"""
    c = []

    def draw(k):
        c.append(I.angle('z%d' % k))
        return 2 * c[-1] / I.np.pi
    return Draws(I, draw), c


def turned(I, y, a, c, label):
    used = set()
    for k in range(len(a)):
        hit = [(j, t) for j, z in enumerate(c) for t in (1, -1) if same(I, y[k], a[k] * I.np.exp(1j * t * z))]
        hit.sort(key=lambda h: h[0] in used)
        j, t = hit[0] if hit else (min(k, len(c) - 1), 1)
        used.add(j)
        I.eq(y[k], a[k] * I.np.exp(1j * t * c[j]), label)
    I.true(len(used) == len(a), label + ': a draw for each')


def adjoint(I, arch, n, style, what):
    """the cotangent of the inputs, measured in the analog scheme, has errors of its own"""
    mesh = make(arch, n, style)
    p, err, loss, a, x = fields(I, mesh)
    m = mesh.matrix_fn()(p, np.eye(n) + 0j, err, loss)
    b = I.polars('b', n)
    g = m.conj() @ b          # m.T @ g = b
    s = I.pos('s', 0.01, 0.2)
    d, c = turns(I) if what == 'phase' else (Draws(I, lambda k: I.real('z%d' % k, lo=-2.0, hi=2.0)), None)
    with drawing(I, d):
        f = mesh.in_situ_matrix_fn(**({'io_amp_error_std': s} if what == 'amplitude' else {'io_phase_error_std': 0.5}))
        gx = f.bwd((tuple(map(I.jarr, p)), I.jarr(x), I.jarr(err), I.jarr(loss)), I.jarr(g))[1].reshape(-1)
    if what == 'phase':
        return turned(I, gx, b, c, 'phase error of the cotangent')
    for k in range(n):
        I.eq((gx[k] * I.np.conj(b[k])).imag, 0, 'amplitude errors keep phases')
    own_draws(I, [(gx[k] * I.np.conj(b[k])).real / I.np.abs(b[k]) ** 2 - 1 for k in range(n)], s, d.all, 'amplitude error of the cotangent')


def shot(I, mesh, setting, x, a, g, analog, s, draws, noise):
    """the power P of each tap and measurement fluctuates by deviation * sqrt(P) times a draw; gradients are what is made of these powers"""
    import itertools
    p, err, loss = setting
    n = mesh.n
    nx, ng = (I.np.sqrt((I.np.abs(q) ** 2).sum()) for q in (x, a))      # the mesh is lossless: |g| = |a|
    adj = a / ng                                                     # of the normalised cotangent
    prop = mesh.propagate_matrix_fn(use_jax=False)
    f = lambda v: I.np.abs(prop(p, v, err, loss))
    w, u = x / nx, 1j * I.np.conj(adj)
    if analog:
        amps = [f(w - u) / 2, f(w + u) / 2]
    else:
        back = mesh.propagate_matrix_fn(use_jax=False, back=True)
        amps = [f(w - u), f(w), I.np.abs(back(p, g / ng, err, loss))[::-1]]
    size = amps[0].size
    draws = [z for q in draws if len(q) % size == 0 for z in q]      # measured fields draw fewer numbers
    if len(draws) != size * len(amps):      # drawn in another way
        return
    draws = [I.arr(draws[k:k + size]) for k in range(0, len(draws), size)]
    parts = [[mesh.phase_shift_localize(y * z.reshape(y.shape) * (s * nx * ng / 2), use_jax=False) for z in draws] for y in amps]
    flat = lambda q: [t for r in q for t in r]
    noise = flat(noise)
    ways = [(o, e) for o in itertools.permutations(range(len(amps))) for e in itertools.product((1, -1), repeat=len(amps))]
    for o, e in ways:
        want = [sum(t) for t in zip(*[[e[i] * q for q in flat(parts[i][o[i]])] for i in range(len(amps))])]
        if all(same(I, l, r) for l, r in zip(noise, want)):
            break
    for l, r in zip(noise, want):
        I.eq(l, r, 'shot noise of the measured powers')


def tap(I, arch, n, style, analog):
    """shot noise of the taps adds to the measured gradient in proportion to its deviation, and to light and cotangent as the gradient does"""
    mesh = make(arch, n, style)
    m = mesh.num_nodes
    p = sym_params(I, mesh)
    err, loss = np.zeros((m, 2)), np.zeros((m, 2))
    x, a = I.polars('x', n), I.polars('a', n)
    g = mesh.matrix_fn()(p, np.eye(n) + 0j, err, loss).conj() @ a
    s, c = I.pos('s', 0.01, 0.2), I.pos('c', 0.5, 2.0)
    z, logs = {}, []

    def draw(k):
        if k not in z:
            z[k] = I.real('z%d' % k, lo=-2.0, hi=2.0)
        return z[k]

    def run(std, zero=False, cx=1, cg=1):
        d = Draws(I, (lambda k: 0.0) if zero else draw)
        with drawing(I, d):
            f = mesh.in_situ_matrix_fn(tap_pd_shot_noise=std, all_analog=analog)
            (t, ph, ga), gx = f.bwd((tuple(map(I.jarr, p)), I.jarr(cx * x), I.jarr(err), I.jarr(loss)), I.jarr(cg * g))[:2]
        logs.append(d.log)
        return [list(t), list(ph), list(ga)], gx
    g0, x0 = run(0.0)
    gz, _ = run(s, zero=True)
    g1, x1 = run(s)
    g2, _ = run(2 * s)
    I.eq(x1, x0, 'cotangent of the inputs is free of tap noise')
    for k, nm in enumerate(('theta', 'phi', 'gamma')):
        for i in range(len(g0[k])):
            I.eq(gz[k][i], g0[k][i], 'no fluctuation, no noise (%s)' % nm)
            I.eq(g2[k][i] - g0[k][i], 2 * (g1[k][i] - g0[k][i]), 'noise in proportion to its deviation (%s)' % nm)
    shot(I, mesh, (p, err, loss), x, a, g, analog, s, logs[-2], [[u - v for u, v in zip(*q)] for q in zip(g1, g0)])
    for kw in (dict(cx=c), dict(cg=c)):
        gc, _ = run(s, **kw)
        for k, nm in enumerate(('theta', 'phi', 'gamma')):
            for i in range(len(g0[k])):
                I.eq(gc[k][i], c * g1[k][i], 'scales with %s (%s)' % ('light' if 'cx' in kw else 'cotangent', nm))


def cases(tier):
    cs = [Case(phases, arch=a, n=n, constant=c, gamma=g) for a, n in (('tree', 3), ('rect', 3)) for c in (False, True) for g in (False, True)]
    cs += [Case(outputs, arch=a, n=n, style=s, what=w) for a, n, s in (('tree', 2, 'top'), ('tree', 3, 'bottom'), ('rect', 3, 'top')) for w in ('amplitude', 'phase')]
    cs += [Case(adjoint, arch='tree', n=2, style=s, what=w) for s in ('top', 'bottom') for w in ('amplitude', 'phase')]
    cs += [Case(tap, timeout=600, arch='tree', n=3, style='bottom', analog=False)] if tier == 'thorough' else []
    return cs + [Case(tap, arch=a, n=n, style=s, analog=an) for a, n, s in [('tree', 2, 'top'), ('tree', 2, 'bottom')] for an in (True, False)]
