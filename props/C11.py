"""Elementary coupler and phase shifter matrices: unitary, embedded without touching other rails, and inverse to each other's settings."""
from symx.harness import Case
from .meshlib import *


def is_unitary(I, m, label):
    n = m.shape[0]
    I.eq(m @ m.conj().T, np.eye(n), label)


def elements(I):
    from simphox.circuit.coupling import phase_matrix, coupling_matrix_s, coupling_matrix_phase
    t, b, th, e = I.angle('t'), I.angle('b'), I.angle('theta'), I.angle('e')
    is_unitary(I, phase_matrix(t, b), 'phase shifter pair is unitary')
    is_unitary(I, coupling_matrix_phase(th, e), 'phase-controlled coupler is unitary')
    m = coupling_matrix_phase(th, e)
    I.eq(I.np.abs(m[0, 0]) ** 2, I.np.cos((th + e) / 2) ** 2, 'bar power of the phase-controlled coupler')
    c, s = I.halfangle('x')
    m = coupling_matrix_s(s * s)
    is_unitary(I, m, 'coupler of split ratio s is unitary')
    I.eq(I.np.abs(m[0, 1]) ** 2, s * s, 'cross power equals the split ratio')
    I.eq(I.np.abs(m[0, 0]) ** 2, c * c, 'bar power equals one minus the split ratio')


def insertion(I):
    from simphox.circuit.coupling import loss2insertion
    a, b = I.real('a', lo=-3.0, hi=0.0), I.real('b', lo=-3.0, hi=0.0)
    I.eq(loss2insertion(a) * loss2insertion(b), loss2insertion(a + b), 'losses in dB add up')
    I.eq(loss2insertion(0.0), 1, 'no loss')
    I.eq(loss2insertion(-20.0), 0.1, '-20 dB is one tenth of the amplitude')


def embedded(I, n, i, j):
    """a node acts on its two rails only"""
    from simphox.circuit.coupling import CouplingNode
    node = CouplingNode(n=n, top=i, bottom=j)
    e = I.angles('err', 2)
    node.bs_error = (e[0], e[1])
    th, ph, t, b = I.angle('theta'), I.angle('phi'), I.angle('t'), I.angle('b')
    c, s = I.halfangle('x')
    x = I.cplxs('x', n)
    for nm, big, small in (('ideal', node.ideal_node(s * s, ph), None), ('phase', node.phase_matrix(t, b), None),
                           ('mzi', node.mzi_node_matrix(th, ph), node.mzi_node_matrix(th, ph, embed=False)),
                           ('mmi', node.mmi_node_matrix(th, ph), node.mmi_node_matrix(th, ph, embed=False))):
        is_unitary(I, big, nm + ' node is unitary')
        y = big @ x
        for k in range(n):
            if k not in (i, j):
                I.eq(y[k], x[k], nm + ' node leaves other rails alone')
        if small is not None:
            z = small @ I.np.array([x[i], x[j]])
            I.eq(y[i], z[0], nm + ' node: top rail')
            I.eq(y[j], z[1], nm + ' node: bottom rail')
    I.eq(I.np.abs(node.ideal_node(s * s, ph)[i, j]) ** 2, s * s, 'cross power of the ideal node is its split ratio')
    for d, k, nm in ((node.dc(), 0, 'left (default)'), (node.dc(right=False), 0, 'left'), (node.dc(right=True), 1, 'right')):
        is_unitary(I, d, nm + ' coupler is unitary')
        I.eq(d[0, 0] * d[1, 1] + d[0, 1] * d[1, 0], -I.np.sin(2 * e[k]), nm + ' coupler has the error of its side')
    # terms of the interferometer used by the vectorised code
    cc, cs, sc, ss = node.mzi_terms
    m = node.mzi_node_matrix(th, 0, embed=False)
    ex = I.np.exp
    I.eq(m[0, 0], cc * ex(1j * th) - ss, 'interferometer terms: bar')
    I.eq(m[0, 1], 1j * (cs * ex(1j * th) + sc), 'interferometer terms: cross')
    I.eq(m[1, 1], cc - ss * ex(1j * th), 'interferometer terms: other bar')


def transmissivity(I, errors):
    """coupling phase for a split ratio s: the node then transmits s"""
    from simphox.circuit.coupling import transmissivity_to_phase, direct_transmissivity, CouplingNode
    node = CouplingNode()
    if errors:
        cl, sl = I.halfangle('xl')
        cr, sr = I.halfangle('xr')
        node.bs_error = (I.np.arccos(cl) - I.np.pi / 4, I.np.arccos(cr) - I.np.pi / 4)
        terms = I.np.array(node.mzi_terms)
        cs, sc = cr * sl, sr * cl
    else:
        terms, cs, sc = None, 0.5, 0.5
    s = I.real('s', lo=0.0, hi=1.0)
    I.assume(s > (cs - sc) ** 2)
    I.assume(s < (cs + sc) ** 2)
    th = transmissivity_to_phase(s, terms)
    m = node.mzi_node_matrix(th, I.angle('phi'), embed=False)
    I.eq(I.np.abs(m[0, 1]) ** 2, s, 'the node couples the requested split ratio across')


def direct(I):
    from simphox.circuit.coupling import direct_transmissivity
    a, b = I.polar('a'), I.polar('b')
    t, r = direct_transmissivity(a, b), direct_transmissivity(b, a)
    I.eq(t + r, 1, 'transmissivities of the two ports add up to one')
    I.eq(t * (I.np.abs(a) ** 2 + I.np.abs(b) ** 2), I.np.abs(a) ** 2, 'transmissivity is the share of the top port')


def nullify(I, n, i):
    from simphox.circuit.coupling import CouplingNode
    node = CouplingNode(n=n, top=i, bottom=i + 1)
    v = I.polars('v', n)
    w, mat, th, ph = node.nullify(v, i)
    I.eq(w[i + 1], 0, 'the bottom rail is nulled')
    I.eq(mat @ v, w, 'the returned vector is the node applied to the vector')
    I.eq(node.mzi_node_matrix(th, ph), mat, 'the returned phases give the returned matrix')


def cases(tier):
    cs = [Case(elements), Case(insertion), Case(transmissivity, errors=False), Case(transmissivity, errors=True), Case(direct)]
    for n, i, j in ((2, 0, 1), (3, 0, 2), (4, 1, 3), (4, 2, 0)):
        cs.append(Case(embedded, n=n, i=i, j=j))
    for n, i in ((2, 0), (3, 0), (3, 1)):
        cs.append(Case(nullify, n=n, i=i))
    return cs
