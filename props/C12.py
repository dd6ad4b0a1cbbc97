"""Imperfections and bookkeeping: errors and losses stay with their nodes; regrouping, reordering and copying change nothing else."""
import contextlib
from symx.harness import Case
from .meshlib import *


def ref_of(I, mesh, params, x):
    """physical reference built from what each node itself says"""
    th, ph, ga = params
    rows = [x[i] for i in range(mesh.n)]
    for _, t, b, k in mesh_nodes(mesh):
        node = next(q for q in mesh.nodes if int(q.node_id) == k)
        rows = apply2(I, rows, t, b, node_ref(I, mesh.phase_style, th[k], ph[k], node.bs_error, node.loss))
    return I.np.stack([I.np.exp(1j * ga[i]) * rows[i] for i in range(mesh.n)])


def build(I, arch, n, style, lossy=True):
    mesh = make(arch, n, style)
    p = sym_params(I, mesh)
    err, loss = sym_errors(I, mesh), sym_losses(I, mesh, lossy and style in ('top', 'bottom'))
    return mesh, p, err, loss


def nodes_keep_errors(I, arch, n, style):
    """errors set node by node are those of the mesh"""
    from simphox.circuit import ForwardMesh
    import copy
    mesh, p, err, loss = build(I, arch, n, style)
    nodes = copy.deepcopy(mesh.nodes)
    for node in nodes:
        k = int(node.node_id)
        node.bs_error, node.loss = (err[k, 0], err[k, 1]), (loss[k, 0], loss[k, 1])
    m2 = ForwardMesh(nodes, style)
    m2.params = p
    x = I.arr(np.eye(mesh.n) + 0j)
    I.eq(m2.matrix(), mesh_ref(I, mesh, style, p, err, loss, x), 'the mesh uses the errors and losses of its nodes')


def regrouped(I, arch, n, style):
    """column order, aggregation of columns, and error injection on them"""
    from simphox.circuit import ForwardMesh
    mesh, p, err, loss = build(I, arch, n, style)
    x = I.arr(np.eye(mesh.n) + 0j)
    ref = mesh_ref(I, mesh, style, p, err, loss, x)
    m1 = mesh.add_error_mean(err, loss)
    I.eq(m1.matrix(p), ref, 'matrix with errors')
    o = m1.column_ordered
    o.params = p
    I.eq(o.matrix(), ref, 'column order keeps the matrix')
    I.true(o.phase_style == style, 'column order keeps the phase style')
    o2 = ForwardMesh.aggregate(mesh.columns).add_error_mean(err, loss)
    I.eq(o2.matrix(p), ref, 'errors injected after regrouping belong to the same nodes')
    o3 = ForwardMesh.aggregate([m1])
    I.eq(o3.matrix(p), ref, 'aggregating one circuit keeps it')


def untouched(I, mesh, p, before):
    """the mesh, and what is made of its nodes, are what they were"""
    from simphox.circuit import ForwardMesh
    I.eq(mesh.matrix(), before, 'the original mesh is untouched')
    I.eq(mesh.column_ordered.matrix(p), before, 'the original mesh in column order is untouched')
    I.eq(ForwardMesh.aggregate([mesh]).matrix(p), before, 'the nodes of the original mesh are untouched')


def injection(I, arch, n, style):
    """error injection: scalar or per node, left and right; phases kept, original untouched"""
    mesh = make(arch, n, style)
    p = sym_params(I, mesh)
    mesh.params = p
    m = mesh.num_nodes
    x = I.arr(np.eye(mesh.n) + 0j)
    before = mesh.matrix()
    a, b, l = I.angle('a'), I.angle('b'), I.real('l', lo=-3.0, hi=0.0)
    one = np.ones((m, 2))
    lo = l if style in ('top', 'bottom') else 0.0
    m1 = mesh.add_error_mean(a, lo)
    I.eq(m1.matrix(), mesh_ref(I, mesh, style, p, a * one, lo * one, x), 'one error and one loss for every coupler, phases kept')
    m2 = mesh.add_error_mean(a, lo, b)
    e2 = I.np.stack([a * np.ones(m), b * np.ones(m)], axis=1)
    I.eq(m2.matrix(), mesh_ref(I, mesh, style, p, e2, lo * one, x), 'different errors left and right')
    I.true(m2.phase_style == style and mesh.phase_style == style, 'phase style kept')
    untouched(I, mesh, p, before)
    I.eq(m1.column_ordered.matrix(p), m1.matrix(p), 'each new mesh keeps its own errors')
    m3 = m2.add_error_variance(0.0, 0.0)
    I.eq(m3.matrix(), m2.matrix(), 'no variance adds nothing')
    I.eq(m2.matrix(p), m2.matrix_fn()(p), 'matrix with explicit settings')


def params_copy(I, arch, n):
    """settings read from a mesh are a copy"""
    mesh = make(arch, n, 'top')
    p = sym_params(I, mesh)
    mesh.params = p
    q = mesh.params
    before = mesh.matrix()
    for v in q:
        v[0] = 0
    I.eq(mesh.matrix(), before, 'changing settings that were read does not change the mesh')


def cascaded(I, style):
    """two circuits one after the other: the matrices multiply"""
    from simphox.circuit import ForwardMesh
    from simphox.circuit.vector import tree
    a, b = tree(3, phase_style=style), tree(3, balanced=False, phase_style=style)
    pa = (I.angles('ta', 2), I.angles('pa', 2), np.zeros(3))
    pb = (I.angles('tb', 2), I.angles('pb', 2), I.angles('gb', 3))
    ma, mb = a.matrix(pa), b.matrix(pb)
    b.offset(2).offset_column(a.num_columns)
    c = ForwardMesh.aggregate([a, b])
    hs = I.np.hstack
    I.eq(c.matrix((hs((pa[0], pb[0])), hs((pa[1], pb[1])), pb[2])), mb @ ma, 'aggregated circuits multiply')


def mirrored(I, style):
    """inverting the columns of a tree reverses the order of its nodes"""
    from simphox.circuit.vector import tree
    m = tree(4, phase_style=style)
    p = sym_params(I, m)
    x = I.arr(np.eye(4) + 0j)
    order = mesh_nodes(m)
    inv = m.invert_columns()
    rows = [x[i] for i in range(4)]
    L = max(q[0] for q in order)
    for _, t, b, k in sorted((L - c, t, b, k) for c, t, b, k in order):
        rows = apply2(I, rows, t, b, node_ref(I, style, p[0][k], p[1][k], (0., 0.)))
    I.eq(inv.matrix(p), I.np.stack([I.np.exp(1j * p[2][i]) * rows[i] for i in range(4)]), 'inverted columns reverse the order')


def variance(I, arch, n, equal):
    """random errors add to those there are, in proportion to their deviation; equal ones change both splitters of a node alike"""
    mesh = make(arch, n, 'top')
    p = sym_params(I, mesh)
    err, loss = sym_errors(I, mesh), sym_losses(I, mesh)
    base = mesh.add_error_mean(err, loss)
    base.params = p
    before = base.matrix()
    s, l = I.pos('s', 0.01, 1.0), I.pos('l', 0.01, 0.1)
    z = I.reals('z', mesh.num_nodes, 2)

    def add(*a):
        with drawing(I, lambda *shape: z.reshape(-1)[:int(np.prod(shape))].reshape(shape)):
            m = base.add_error_variance(*a, equal_splitter_error=equal)
        I.eq(m.matrix(p), m.matrix(), 'settings kept')
        return m
    m1, m2, m3 = add(s, l), add(2 * s, 2 * l), add(s)
    d1, d2 = m1.bs_errors - err, m2.bs_errors - err
    I.eq(d2, 2 * d1, 'errors are added in proportion to their deviation')
    I.eq(m2.losses - loss, 2 * (m1.losses - loss), 'losses are added in proportion to their deviation')
    I.eq(m3.losses, loss, 'no deviation, same losses')
    if equal:
        I.eq(d1[:, 0], d1[:, 1], 'both splitters alike')
    for m in (m1, m3):
        I.eq(m.matrix(), mesh_ref(I, mesh, 'top', p, m.bs_errors, m.losses, I.arr(np.eye(n) + 0j)), 'the mesh has these errors and losses')
    untouched(I, base, p, before)


@contextlib.contextmanager
def drawing(I, randn):
    """normal numbers, however they are asked for, come from randn"""
    r = I.np.random

    def shape(size):
        return () if size is None else tuple(size) if np.iterable(size) else (int(size),)
    new = {'randn': randn, 'standard_normal': lambda size=None: randn(*shape(size)),
           'normal': lambda loc=0.0, scale=1.0, size=None: loc + scale * randn(*shape(size))}
    saved = {k: vars(r).get(k) if I.sym else getattr(r, k) for k in new}
    for k, f in new.items():
        setattr(r, k, f)
    try:
        yield
    finally:
        for k, f in saved.items():
            if f is None:
                delattr(r, k)
            else:
                setattr(r, k, f)


def cases(tier):
    cs = []
    for a, n in (('tree', 3), ('tree', 5), ('chain', 4), ('rect', 3), ('triangular', 3), ('cascade', 3), ('butterfly', 4), ('gaps', 4)):
        for s in STYLES:
            if tier == 'quick' and s in ('symmetric', 'differential') and (a, n) != ('tree', 5):
                continue
            cs.append(Case(nodes_keep_errors, arch=a, n=n, style=s))
            cs.append(Case(regrouped, arch=a, n=n, style=s))
    for a, n in (('tree', 3), ('rect', 3), ('chain', 3)):
        for s in STYLES:
            cs.append(Case(injection, arch=a, n=n, style=s))
        cs.append(Case(params_copy, arch=a, n=n))
    for s in STYLES:
        cs.append(Case(cascaded, style=s))
        cs.append(Case(mirrored, style=s))
    cs += [Case(variance, arch=a, n=3, equal=e) for a in ('tree', 'rect') for e in (False, True)]
    return cs
