"""Shared reference models for the mesh harnesses (independent of the code under test)."""
import numpy as np
from symx import core as C
from symx import poly as P
from symx.core import S
from symx.nd import tosym

STYLES = ('top', 'bottom', 'symmetric', 'differential')


def givens_factors(I, name, degenerate=False):
    """(c, s) of a rotation by x in [0, pi/2]; the two end points are explored as their own paths"""
    if degenerate in ('b', 'c', 'g'):       # fixed kind: bar, cross or generic
        return {'b': (1.0, 0.0), 'c': (0.0, 1.0)}.get(degenerate) or I.halfangle(name)
    if degenerate:
        k = I.choice(name + '_kind', ['generic', 'bar', 'cross'])
        if k == 'bar':
            return 1.0, 0.0
        if k == 'cross':
            return 0.0, 1.0
    return I.halfangle(name)


def rot(I, n, i, j, c, s, ph):
    """n x n unitary acting on rails i, j: [[c, -s ph*], [s ph, c]]"""
    m = I.np.eye(n, dtype=complex)
    m[i, i] = c
    m[j, j] = c
    m[i, j] = -s * ph.conjugate()
    m[j, i] = s * ph
    return m


def diag(I, phases):
    n = len(phases)
    m = I.np.zeros((n, n), dtype=complex)
    for i in range(n):
        m[i, i] = phases[i]
    return m


def unitary(I, n, order, degenerate=False):
    """product over `order` of rotations and one diagonal ('D'): order lists (i, j) pairs and 'D'"""
    m = I.np.eye(n, dtype=complex)
    k = 0
    for o in order:
        if o == 'D':
            m = m @ diag(I, [I.cis(I.angle('d%d' % q)) for q in range(n)])
        else:
            c, s = givens_factors(I, 'x%d' % k, degenerate[k] if isinstance(degenerate, str) else degenerate)
            ph = I.cis(I.angle('y%d' % k))
            m = m @ rot(I, n, o[0], o[1], c, s, ph)
            k += 1
    return m


def cvec(I, name, n, zeros=False):
    """complex vector; with zeros=True every entry may be exactly zero (its own path), but not all"""
    if not zeros:
        return I.polars(name, n)
    z = I.int(name + '_zero', 0, 2 ** n - 2)
    return I.arr([0j if z >> i & 1 else I.polar('%s_%d' % (name, i)) for i in range(n)])


# ---------------------------------------------------------------------------------------------- architectures
def make(arch, n, style):
    """a mesh of the named architecture (its current phases are irrelevant: every harness passes its own)"""
    from simphox.circuit import rectangular, triangular, tree_cascade, ForwardMesh
    from simphox.circuit.vector import tree, butterfly
    if arch == 'tree':
        return tree(n, balanced=True, phase_style=style)
    if arch == 'chain':
        return tree(n, balanced=False, phase_style=style)
    if arch == 'embedded':
        return tree(n - 1, n_rails=n, phase_style=style)
    if arch == 'butterfly':
        m = butterfly(n)
    elif arch == 'gaps':    # columns without nodes, numbers of nodes not in their order, arms crossing
        from simphox.circuit.coupling import CouplingNode
        at = {3: [(1, 0, 0, 2), (0, 2, 1, 0), (2, 3, 1, 2)], 4: [(2, 0, 0, 3), (0, 2, 2, 1), (1, 2, 3, 0), (3, 5, 1, 2)]}[n]
        m = ForwardMesh([CouplingNode(node_id=k, n=n, column=c, top=t, bottom=b) for k, c, t, b in at], style)
        return m
    elif arch == 'rect':
        m = rectangular(np.eye(n) + 0j)
    elif arch in ('triangular', 'cascade'):
        f = triangular if arch == 'triangular' else tree_cascade
        m = f(np.eye(n) + 0j, phase_style='top' if style == 'symmetric' else style)     # SYMMETRIC cannot be programmed
        if style != 'symmetric':
            return m
    else:
        raise ValueError(arch)
    return m if style == 'top' else ForwardMesh(m.nodes, style)


ARCHS = [('tree', 2), ('tree', 3), ('tree', 4), ('chain', 3), ('chain', 4), ('embedded', 3), ('butterfly', 4), ('rect', 2), ('rect', 3),
         ('rect', 4), ('triangular', 3), ('cascade', 3), ('gaps', 3), ('gaps', 4)]
ARCHS_DEEP = ARCHS + [('tree', 5), ('chain', 5), ('triangular', 4), ('cascade', 4), ('rect', 5), ('embedded', 4)]


def sym_params(I, mesh):
    m = mesh.num_nodes
    return I.angles('theta', m), I.angles('phi', m), I.angles('gamma', mesh.n)


def sym_errors(I, mesh, on=True):
    return I.angles('err', mesh.num_nodes, 2) if on else np.zeros((mesh.num_nodes, 2))


def sym_losses(I, mesh, on=True):
    """dB; 0 is no loss"""
    return I.reals('loss', mesh.num_nodes, 2, lo=-3.0, hi=0.0) if on else np.zeros((mesh.num_nodes, 2))


# ---------------------------------------------------------------------------------------------- physical reference model
def dc(I, e):
    """directional coupler with split error e: 50/50 for e = 0"""
    c, s = I.np.cos(I.np.pi / 4 + e), I.np.sin(I.np.pi / 4 + e)
    return [[c, 1j * s], [1j * s, c]]


def mm(a, b):
    return [[a[0][0] * b[0][0] + a[0][1] * b[1][0], a[0][0] * b[0][1] + a[0][1] * b[1][1]],
            [a[1][0] * b[0][0] + a[1][1] * b[1][0], a[1][0] * b[0][1] + a[1][1] * b[1][1]]]


def stages(I, style, th, ph, err, loss=(0., 0.)):
    """the four components of a node in the order light meets them: phi shifter, left coupler, theta shifter, right coupler"""
    ex = I.np.exp
    at = ex(np.log(10) * loss[0] / 20)      # amplitude transmission at the theta / phi phase shifters
    ap = ex(np.log(10) * loss[1] / 20)
    if style == 'top':
        p, t = [[ex(1j * ph) * ap, 0], [0, 1]], [[ex(1j * th) * at, 0], [0, 1]]
    elif style == 'bottom':
        p, t = [[1, 0], [0, ex(1j * ph) * ap]], [[1, 0], [0, ex(1j * th) * at]]
    elif style == 'symmetric':
        p, t = [[ex(1j * ph), 0], [0, ex(1j * ph)]], [[ex(0.5j * th), 0], [0, ex(-0.5j * th)]]
    else:
        p, t = [[ex(-0.5j * ph), 0], [0, ex(0.5j * ph)]], [[ex(0.5j * th), 0], [0, ex(-0.5j * th)]]
    return p, dc(I, err[0]), t, dc(I, err[1])


def node_ref(I, style, th, ph, err, loss=(0., 0.)):
    p, l, t, r = stages(I, style, th, ph, err, loss)
    return mm(r, mm(t, mm(l, p)))


def apply2(I, x, i, j, m):
    """rows i, j of x (a list of rows) through the 2x2 m"""
    y = list(x)
    y[i] = m[0][0] * x[i] + m[0][1] * x[j]
    y[j] = m[1][0] * x[i] + m[1][1] * x[j]
    return y


def mesh_nodes(mesh):
    """(column, top, bottom, node index) in the order light meets the nodes"""
    return sorted(((int(nd.column), int(nd.top), int(nd.bottom), int(nd.node_id)) for nd in mesh.nodes))


def mesh_ref(I, mesh, style, params, err, loss, x):
    """the field x (rows = rails) through the whole mesh, node by node, then the output phases"""
    th, ph, ga = params
    rows = [x[i] for i in range(mesh.n)]
    for _, t, b, k in mesh_nodes(mesh):
        rows = apply2(I, rows, t, b, node_ref(I, style, th[k], ph[k], err[k], loss[k]))
    return I.np.stack([I.np.exp(1j * ga[i]) * rows[i] for i in range(mesh.n)])
