"""The mesh matrix is the ordered product of its nodes: coupler, theta shifter, coupler, phi shifter, then the output phases."""
from symx.harness import Case
from .meshlib import *


def product(I, arch, n, style, lossy):
    mesh = make(arch, n, style)
    p = sym_params(I, mesh)
    err, loss = sym_errors(I, mesh), sym_losses(I, mesh, lossy)
    x = np.eye(mesh.n) + 0j
    ref = mesh_ref(I, mesh, style, p, err, loss, I.arr(x))
    m = mesh.add_error_mean(err, loss).matrix(p)
    I.eq(m, ref, 'mesh matrix equals the product of its nodes')


def stored(I, arch, n, style):
    """phases, errors and losses stored in the mesh are the ones its matrix uses"""
    mesh = make(arch, n, style)
    p = sym_params(I, mesh)
    err, loss = sym_errors(I, mesh), sym_losses(I, mesh)
    m2 = mesh.add_error_mean(err, loss)
    m2.params = p
    ref = mesh_ref(I, mesh, style, p, err, loss, I.arr(np.eye(mesh.n) + 0j))
    I.eq(m2.matrix(), ref, 'matrix of the stored parameters')
    x = I.cplxs('x', mesh.n)
    I.eq(m2.matrix_fn()(inputs=x).squeeze(), ref @ x, 'a vector is transformed by the matrix')
    y = I.reals('y', mesh.n, 2)
    y0 = y.copy()
    I.eq(m2.matrix_fn()(inputs=y), ref @ y, 'real inputs are transformed by the matrix')
    I.eq(y, y0, 'inputs stay')


def node_matrix(I, lossy):
    from simphox.circuit.coupling import CouplingNode
    e, l = I.angles('err', 2), (I.reals('loss', 2, lo=-3.0, hi=0.0) if lossy else np.zeros(2))
    node = CouplingNode(n=3, top=0, bottom=2)
    node.bs_error, node.loss = (e[0], e[1]), (l[0], l[1])
    th, ph = I.angle('theta'), I.angle('phi')
    I.eq(node.mzi_node_matrix(th, ph, embed=False), I.arr(node_ref(I, 'top', th, ph, e, l)), 'node matrix equals the product of its components')


def cases(tier):
    cs = []
    for a, n in (ARCHS if tier == 'quick' else ARCHS_DEEP):
        for s in STYLES:
            cs.append(Case(product, arch=a, n=n, style=s, lossy=False))
            if s in ('top', 'bottom') and (n <= 3 or tier != 'quick'):
                cs.append(Case(product, arch=a, n=n, style=s, lossy=True))
    for a, n in (('tree', 3), ('rect', 3), ('chain', 3)):
        for s in ('top', 'bottom'):
            cs.append(Case(stored, arch=a, n=n, style=s))
    cs += [Case(node_matrix, lossy=False), Case(node_matrix, lossy=True)]
    return cs
