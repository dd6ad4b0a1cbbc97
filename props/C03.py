"""Energy conservation: the matrix of a lossless mesh is unitary for every phase setting and coupler error."""
from symx.harness import Case
from .meshlib import *

FUNCTIONS = ['circuit.forward.ForwardMesh.matrix', 'circuit.forward.ForwardMesh.matrix_fn', 'circuit.forward.ForwardMesh.columns', 'circuit.forward._parallel_mzi', 'circuit.forward._parallel_transform', 'circuit.forward._mzi_terms', 'circuit.forward.ForwardMesh.add_error_mean', 'circuit.vector.tree', 'circuit.vector.butterfly', 'circuit.rectangular.rectangular', 'circuit.matrix.cascade']
BOUNDS = 'tree/chain n=2..4 (5 thorough), embedded tree, butterfly 4, rectangular 2..4 (5), triangular/cascade 3 (4); four phase styles; all phases and coupler errors symbolic'
OUTSIDE = 'larger meshes; float rounding'


def unitary_mesh(I, arch, n, style, back, errors):
    mesh = make(arch, n, style)
    p = sym_params(I, mesh)
    err = sym_errors(I, mesh, errors)
    mesh = mesh.add_error_mean(err, np.zeros((mesh.num_nodes, 2)))
    m = mesh.matrix(p, back=back)
    I.eq(m @ m.conj().T, np.eye(mesh.n), 'the transfer matrix is unitary')


def cases(tier):
    return [Case(unitary_mesh, arch=a, n=n, style=s, back=b, errors=not (a in ('rect', 'triangular', 'cascade') and n > 3)) for a, n in (ARCHS if tier == 'quick' else ARCHS_DEEP) for s in STYLES for b in (False, True)
            if not (b and a in ('embedded', 'butterfly'))]
