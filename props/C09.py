"""Nullification basis: programming a mesh column by column from its own nullification basis restores its settings."""
from symx.harness import Case
from .meshlib import *


def angle2(I, name):
    """a coupling phase in (0, pi), together with nothing else: 2 arg(c + i s)"""
    c, s = I.halfangle(name)
    return 2 * I.np.angle(c + 1j * s)


def restore(I, arch, n, style, errors=False):
    mesh = make(arch, n, style)
    m = mesh.num_nodes
    if errors:
        # imperfect couplers, different for every node and (if asked for) for the two couplers of a node
        e = []
        for k in range(m):
            cl, sl = I.halfangle('xl%d' % k)
            cr, sr = I.halfangle('xr%d' % k) if errors == 'two' else (cl, sl)
            e.append([I.np.arccos(cl) - I.np.pi / 4, I.np.arccos(cr) - I.np.pi / 4])
        mesh = mesh.add_error_mean(I.np.array(e), I.np.zeros((m, 2)))
    th = I.arr([angle2(I, 't%d' % k) for k in range(m)])
    ph = I.angles('phi', m)
    ga = I.angles('gamma', mesh.n)
    mesh.params = (th, ph, ga)
    ref = mesh.matrix()
    basis = mesh.nullification_basis
    mesh.params = (I.angles('theta0', m), I.angles('phi0', m), ga)
    mesh.program_by_null_basis(basis)
    t2, p2, _ = mesh.params
    ex = I.np.exp
    I.eq(ex(1j * t2), ex(1j * th), 'coupling phases are restored', tol=2e-3)
    if style != 'differential':
        I.eq(ex(1j * p2), ex(1j * ph), 'external phases are restored', tol=2e-3)
        I.eq(mesh.matrix(), ref, 'the mesh implements the same matrix', tol=2e-3)
    else:
        # half phases have period 4 pi: a basis determines them up to a sign of each node, which moves to the output phases
        prod = mesh.matrix() @ ref.conj().T
        for i in range(mesh.n):
            for j in range(mesh.n):
                if i != j:
                    I.eq(prod[i, j], 0, 'the mesh implements the same matrix up to output phases', tol=2e-3)


def cases(tier):
    cs = []
    for a, n in (('tree', 2), ('tree', 3), ('chain', 3), ('triangular', 3), ('cascade', 3), ('rect', 3), ('tree', 4), ('chain', 4), ('rect', 4), ('butterfly', 4)):
        for s in ('top', 'bottom', 'differential'):
            if (a, n, s) == ('rect', 4, 'differential'):
                continue
            cs.append(Case(restore, arch=a, n=n, style=s))
    for a, n in (('tree', 2), ('tree', 3)):
        for s in ('top', 'bottom', 'differential'):
            for errors in ('one', 'two')[:1 if (n, s) == (3, 'differential') else 2]:
                cs.append(Case(restore, arch=a, n=n, style=s, errors=errors))
    return cs
