"""Training a mesh: matrix optimisation follows the gradient of the normalized error from the settings given, and the neural-network layer of a
mesh is its matrix followed by its activation."""
import contextlib
from symx.harness import Case
from symx.nd import SA, plain
from .meshlib import *
from .optlib import optimizer

FUNCTIONS = ['circuit.forward.ForwardMesh.matrix_opt', 'circuit.forward.InSituBackpropLayer.__init__', 'circuit.forward.InSituBackpropLayer.__call__',
             'circuit.forward.ForwardMesh.add_error_variance', 'circuit.forward.ForwardMesh.matrix_fn', 'utils.normalized_error']


def conv(I, p):
    return tuple(I.jarr(x) if I.sym else np.asarray(x, dtype=float) for x in p)


def num(I, x):
    return plain(x).view(SA) if I.sym else np.asarray(x)


def same_params(I, a, b, label):
    for k, nm in enumerate(('theta', 'phi', 'gamma')):
        I.eq(num(I, a[k]), b[k], f'{label} ({nm})')


def with_errors(I, arch, n, style, errors='el'):
    """a mesh of its own device errors and losses, whatever they are"""
    from simphox.circuit import ForwardMesh
    mesh = make(arch, n, style)
    err, loss = sym_errors(I, mesh, 'e' in errors), sym_losses(I, mesh, 'l' in errors)
    if errors == 'fixed':
        rng = np.random.default_rng(0)
        err, loss = rng.uniform(-0.2, 0.2, err.shape), rng.uniform(-0.5, 0, loss.shape)
    for k, nd in enumerate(sorted(mesh.nodes, key=lambda nd: nd.node_id)):
        nd.bs_error, nd.loss = tuple(err[k]), tuple(loss[k])
    mesh = ForwardMesh(mesh.nodes, style)
    mesh.params = tuple(np.asarray(x) for x in (np.linspace(0.5, 2.5, mesh.num_nodes), np.linspace(0.25, 5, mesh.num_nodes), np.linspace(4, 1, n)))
    return mesh, err, loss


def optimise(I, arch, n, style, own=False, iters=2, jit=False, target='d', errors=''):
    """the cost of each iteration is the normalized error of the mesh, errors included, at its settings; the update gets the gradient of that cost"""
    from simphox.circuit import forward
    mesh, err, loss = with_errors(I, arch, n, style, errors)
    u = unitary(I, n, ['D'] if target == 'd' else ['D', (0, 1)])
    p0 = sym_params(I, mesh)
    step = I.pos('step', 0.01, 2)
    shapes = [x.shape for x in p0]
    fn = mesh.matrix_fn()

    def overlap(p):
        m = fn(p, np.eye(n) + 0j, err, loss)
        t = I.np.trace(u.conj().T @ m)
        return t.real ** 2 + t.imag ** 2, n * (I.np.abs(m) ** 2).sum()
    grads = [tuple(I.reals(f'g{k}{i}', *s, lo=-3.0, hi=3.0) for i, s in enumerate(shapes)) for k in range(iters)]
    log = []
    own_settings = mesh.params
    if own:     # the settings of the mesh are numbers; the cost is compared at them
        p0 = tuple(np.asarray(x) for x in own_settings)
        iters = 1
    with optimizer(forward, [conv(I, g) for g in grads], log):
        init, update, get = mesh.matrix_opt(I.jarr(u) if I.sym else u, *(() if own else (conv(I, p0),)), step_size=step, use_jit=jit)
        state, ps = init, [p0]
        vals = []
        same_params(I, get(state), p0, 'settings to start with')
        for k in range(iters):
            v, state = update(k, state)
            vals.append(v)
            ps.append(tuple(a - step * (k + 1) * g for a, g in zip(ps[-1], grads[k])))
            same_params(I, get(state), ps[-1], 'settings after an update')
    I.true([e for e in log if e[0] == 'adam'][0][1] is step or not I.sym, 'step size')
    for k in range(1):
        t2, f2 = overlap(ps[k])
        v = num(I, vals[k])
        v = v.ravel()[0] if hasattr(v, 'ravel') else v
        I.eq(v ** 2, 1 - t2 / f2, 'cost is the normalized error of the mesh')
    for a, b in zip(mesh.params, own_settings):
        I.true(bool(np.all(a == b)), 'the settings of the mesh stay')


def layer(I, arch, n, style, batch, activation=None, keep=False, given=False, jit=True):
    """outputs of the layer: activation of the matrix at the parameters, input by input; it starts from the settings of the mesh"""
    import haiku as hk
    from simphox.circuit.forward import InSituBackpropLayer
    mesh, err, loss = with_errors(I, arch, n, style, '' if not given else 'el')
    p = sym_params(I, mesh)
    if not given:   # measured entries have magnitudes that are numbers; C08 has the others
        p = (np.full(mesh.num_nodes, np.pi / 2), *p[1:])
    m = mesh.matrix_fn()(p, np.eye(n) + 0j, err, loss)
    act = {None: None, 'square': lambda y: y ** 2 if not hasattr(y, 'at') else y * y, 'first': lambda y: y[..., :1]}[activation]
    if given:   # any forward operation
        w = I.cplxs('w', n, n)
        asked = []
        seen = lambda q: asked.append(q) or (I.jarr(w) if I.sym else w)
    kw = dict(activation=act) if act else {}
    kw.update(dict(set_gammas_zero=False) if keep else {})
    kw.update(dict(in_situ_matrix=seen) if given else {})
    kw.update(dict(use_jit=False) if not jit else {})
    made = []

    def net(x):
        made.append(InSituBackpropLayer(mesh, name='layer', **kw))
        return made[-1](x)
    x = (m.conj().T @ I.polars('a', n, batch)).T if not given else I.cplxs('x', batch, n)
    f = hk.without_apply_rng(hk.transform(net))
    theta, phi, gamma = conv(I, p)
    got = num(I, f.apply({'layer': dict(theta=theta, phi=phi, gamma=gamma)}, I.jarr(x) if I.sym else x))
    I.true(made[0].output_size == n, 'size of the output')
    if given:
        same_params(I, asked[-1], p, 'parameters handed on')
        m = w
    y = (m @ x.T).T
    if activation == 'square':
        y = y * y
    elif activation == 'first':
        y = y[:, :1]
    I.true(tuple(got.shape) == tuple(y.shape), 'shape of the output')
    I.eq(got, y, 'activation of the matrix at the parameters')


def start(I, arch, n, style, keep):
    """the first parameters of the layer are the settings of the mesh"""
    import haiku as hk
    import jax
    from simphox.circuit.forward import InSituBackpropLayer
    mesh, err, loss = with_errors(I, arch, n, style, '')
    own = [I.reals(nm, len(x), lo=0.0, hi=6.0) for nm, x in zip(('t', 'p', 'g'), mesh.params)]
    mesh.params = tuple(own)
    asked = {}

    def get_parameter(name, shape, dtype=None, init=None, **k):
        asked[name] = tuple(shape), num(I, init.constant if hasattr(init, 'constant') else init(shape, dtype))
        return asked[name][1]
    w = np.eye(n) + 0j
    net = lambda x: InSituBackpropLayer(mesh, in_situ_matrix=lambda q: w, name='layer', **(dict(set_gammas_zero=False) if keep else {}))(x)
    saved = hk.get_parameter
    hk.get_parameter = get_parameter
    try:
        hk.without_apply_rng(hk.transform(net)).apply({}, np.ones((1, n)))
    finally:
        hk.get_parameter = saved
    I.true(len(asked) == 3, 'parameters of the layer')
    for k, q in zip(('theta', 'phi', 'gamma'), own):
        I.true(asked[k][0] == q.shape, 'sizes of the parameters')
        I.eq(asked[k][1], q if k != 'gamma' or keep else np.zeros(n), 'first parameters are the settings of the mesh')


def cases(tier):
    cs = [Case(optimise, arch=a, n=n, style=s, target=t) for a, n, s, t in (('tree', 2, 'top', 'g'), ('tree', 2, 'bottom', 'g'))]
    cs += [Case(optimise, arch=a, n=n, style=s, target=t, iters=1, jit=j) for a, n, s, t, j in (('tree', 2, 'top', 'd', True), ('tree', 2, 'differential', 'g', False))]
    cs += [Case(optimise, arch=a, n=n, style=s, own=True, jit=j, errors=e, target=t) for a, n, s, j, e, t in (
        ('rect', 3, 'bottom', True, '', 'd'), ('tree', 2, 'top', False, 'fixed', 'd'), ('rect', 3, 'top', False, 'fixed', 'd'), ('tree', 3, 'bottom', True, 'fixed', 'g'))]
    cs += [Case(layer, arch=a, n=n, style=s, batch=b, activation=v, keep=k, given=g) for a, n, s, b, v, k, g in (
        ('tree', 2, 'top', 2, None, False, False), ('tree', 2, 'bottom', 1, 'square', True, False), ('chain', 3, 'top', 2, None, True, False), ('rect', 3, 'top', 3, 'first', False, True), ('rect', 3, 'bottom', 2, 'square', True, True))]
    cs += [Case(start, arch='tree', n=3, style='top', keep=k) for k in (True, False)]
    return cs
