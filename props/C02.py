"""A vector unit programmed for v nulls every rail but the last when v is sent in, for every v, style and coupler error."""
from symx.harness import Case
from .meshlib import cvec

FUNCTIONS = ['circuit.vector.vector_unit', 'circuit.vector._program_vector_unit', 'circuit.vector._tree', 'circuit.vector.tree',
             'circuit.forward.ForwardMesh.parallel_nullify', 'circuit.forward.ForwardMesh.matrix_fn', 'circuit.forward._parallel_mzi',
             'circuit.forward._parallel_transform', 'circuit.forward._mzi_terms', 'circuit.coupling.transmissivity_to_phase',
             'circuit.coupling.direct_transmissivity', 'circuit.forward.ForwardMesh.add_error_mean']


def unit(I, n, balanced, style, zeros=False):
    from simphox.circuit.vector import vector_unit
    v = cvec(I, 'v', n, zeros)
    mesh, w = vector_unit(v, balanced=balanced, phase_style=style)
    nrm = I.np.linalg.norm(v)
    target = I.np.zeros(n, dtype=complex)
    target[n - 1] = nrm
    I.eq(mesh.matrix() @ v, target, 'all power leaves the last rail, real and positive')
    I.eq(w[:n - 1], I.np.zeros(n - 1), 'nulled rails carry nothing')


def errors(I, style, equal):
    """one node with imperfect couplers; v chosen inside the range the node can null"""
    from simphox.circuit.vector import tree, _program_vector_unit
    cl, sl = I.halfangle('xl')
    cr, sr = (cl, sl) if equal else I.halfangle('xr')
    a, b = I.pos('a'), I.pos('b')
    v = I.arr([a * I.cis(I.angle('pa')), b * I.cis(I.angle('pb'))])
    # |M01|^2 = a^2 / (a^2 + b^2) must lie between (cs - sc)^2 and (cs + sc)^2
    cs, sc = cr * sl, sr * cl
    p, q = a * a, a * a + b * b
    I.assume(p > (cs - sc) * (cs - sc) * q)
    I.assume(p < (cs + sc) * (cs + sc) * q)
    e = I.np.array([[I.np.arccos(cl) - I.np.pi / 4, I.np.arccos(cr) - I.np.pi / 4]])
    mesh = tree(2, phase_style=style).add_error_mean(e, I.np.zeros((1, 2)))
    mesh, w = _program_vector_unit(v, mesh)
    out = mesh.matrix() @ v
    I.eq(out[0], 0, 'nulled rail carries nothing')
    I.eq(out[1].imag, 0, 'output phase is compensated')


def cases(tier):
    cs = []
    for st in ('top', 'bottom', 'differential'):
        for n in (2, 3, 4):
            for b in (True, False):
                cs.append(Case(unit, n=n, balanced=b, style=st, zeros=n < 4))
        cs.append(Case(errors, style=st, equal=True, nra_ms=5000))
        cs.append(Case(errors, style=st, equal=False, nra_ms=5000))
    return cs
