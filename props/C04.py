"""Reciprocity: the matrix of the mesh run backward is the transpose of the forward one."""
from symx.harness import Case
from .meshlib import *

FUNCTIONS = ['circuit.forward.ForwardMesh.matrix', 'circuit.forward.ForwardMesh.matrix_fn', 'circuit.forward._parallel_mzi', 'circuit.forward._parallel_transform', 'circuit.forward.ForwardMesh.columns', 'circuit.forward.ForwardMesh.idx']


def reciprocal(I, arch, n, style, lossy, use_jax):
    mesh = make(arch, n, style)
    p = sym_params(I, mesh)
    err, loss = sym_errors(I, mesh), sym_losses(I, mesh, lossy)
    eye = np.eye(mesh.n) + 0j
    f = mesh.matrix_fn(use_jax=use_jax)(p, eye.copy(), err, loss)
    b = mesh.matrix_fn(use_jax=use_jax, back=True)(p, eye.copy(), err, loss)
    I.eq(b, f.T, 'backward matrix is the transpose of the forward matrix')


def cases(tier):
    cs = []
    for a, n in (ARCHS if tier == 'quick' else ARCHS_DEEP):
        for s in STYLES:
            big = n >= 4 and a in ('rect', 'chain', 'triangular', 'cascade', 'butterfly')
            cs.append(Case(reciprocal, arch=a, n=n, style=s, lossy=not big, use_jax=False))
    for a, n in (('tree', 3), ('rect', 3)):
        cs.append(Case(reciprocal, arch=a, n=n, style='top', lossy=False, use_jax=True))
    return cs
