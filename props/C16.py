"""Bookkeeping of grid meshes: moving common phases through the mesh changes nothing, and powers are read at the phase shifters."""
from symx.harness import Case
from .meshlib import *

FUNCTIONS = ['circuit.rectangular.grid_common_mode_flow', 'circuit.rectangular.rectangular_phase_shift_powers', 'circuit.forward.ForwardMesh.phase_shift_localize']


def pairs(n, column):
    return [(t, t + 1) for t in range(column % 2, n - 1, 2)]


def mesh_action(I, ext, gamma, blocks, x):
    """phase shifters on every rail, then couplers of the column (any 2 x 2 matrices), column after column, then the output phases"""
    n, columns = ext.shape
    rows = [x[i] for i in range(n)]
    for c in range(columns):
        rows = [I.np.exp(1j * ext[i, c]) * rows[i] for i in range(n)]
        for k, (t, b) in enumerate(pairs(n, c)):
            rows = apply2(I, rows, t, b, blocks[c][k])
    return I.np.stack([I.np.exp(1j * gamma[i]) * rows[i] for i in range(n)])


def flow(I, n, columns, gamma=True):
    from simphox.circuit.rectangular import grid_common_mode_flow
    ext = I.angles('ext', n, columns)
    g = I.angles('gamma', n)
    ext0, g0 = ext.copy(), g.copy()
    new, out = grid_common_mode_flow(ext, gamma=g) if gamma else grid_common_mode_flow(ext)
    I.eq(ext, ext0, 'phases given stay')
    if gamma:
        I.eq(g, g0, 'output phases given stay')
    I.true(new.shape == (n, columns) and out.shape == (n,), 'sizes')
    # couplers with entries of both rails, so that a common phase passes them and a differential one does not
    blocks = [[I.cplxs(f'b{c}_{k}', 2, 2) for k in range(len(pairs(n, c)))] for c in range(columns)]
    start = 0
    for c in range(columns):
        tops = [t for t, _ in pairs(n, c)]
        for i in range(n):
            if i not in tops:
                I.eq(I.np.exp(1j * new[i, c]), 1, 'phases are left on the top arms of the couplers only')
    x = I.cplxs('x', n)
    I.eq(mesh_action(I, new, out, blocks, x), mesh_action(I, ext0, g0 if gamma else np.zeros(n), blocks, x), 'moving common phases keeps the action of the mesh')


def powers(I, n, use_jax, batch=0):
    """fields after every component, whatever they are: the powers at the shifters of a rectangular mesh, per unit of power"""
    from simphox.circuit import rectangular
    from simphox.circuit.rectangular import rectangular_phase_shift_powers
    mesh = rectangular(np.eye(n) + 0j)
    columns = len({int(nd.column) for nd in mesh.nodes})
    rows = 4 * columns + 2
    f = I.cplxs('f', rows, n)
    y = I.np.abs(f) ** 2
    total = y.sum(axis=1)
    for t in total:
        I.assume(t > 0.1)
    y = y / total.reshape(-1, 1)
    t, p, g = rectangular_phase_shift_powers(I.jarr(f) if use_jax else f, use_jax=use_jax)
    I.true(t.shape == (mesh.num_nodes,) and p.shape == (mesh.num_nodes,) and g.shape == (n,), 'one power for each phase shifter')
    for nd in mesh.nodes:
        k, c = int(nd.node_id), int(nd.column)
        I.eq(t[k], y[4 * c + 2, nd.top], 'power at the coupling phase shifter')
        I.eq(p[k], y[4 * c, nd.top], 'power at the input phase shifter')
    for i in range(n):
        I.eq(g[i], y[-1, i], 'power at the output phase shifter')


def localize(I, arch, n, style, batch, use_jax):
    """of any powers after every component, those at the phase shifters, in the order of the settings"""
    mesh = make(arch, n, style)
    cols = sorted({int(nd.column) for nd in mesh.nodes})
    shape = (4 * len(cols) + 2, n) + ((batch,) if batch else ())
    y = I.reals('y', *shape)
    total = lambda v: v.sum() if batch else v
    t, p, g = mesh.phase_shift_localize(I.jarr(y) if use_jax else y, use_jax=use_jax)
    I.true(t.shape == (mesh.num_nodes,) and p.shape == (mesh.num_nodes,) and g.shape == (n,), 'one value for each phase shifter')
    for nd in mesh.nodes:
        k, c = int(nd.node_id), cols.index(int(nd.column))
        arm = nd.bottom if style == 'bottom' else nd.top
        I.eq(t[k], total(y[4 * c + 2, arm]), 'at the coupling phase shifter')
        I.eq(p[k], total(y[4 * c, arm]), 'at the input phase shifter')
    for i in range(n):
        I.eq(g[i], total(y[-1, i]), 'at the output phase shifter')


def cases(tier):
    cs = [Case(flow, n=n, columns=c) for n in (2, 3, 4, 5) for c in sorted({1, 2, n - 1, n, n + 1}) if c * n <= (20 if tier == 'quick' else 30)]
    cs += [Case(flow, n=n, columns=c, gamma=False) for n, c in ((2, 2), (3, 3), (4, 2), (3, 4))]
    cs += [Case(powers, n=n, use_jax=j) for n in (2, 3, 4, 5, 6) for j in (False, True)]
    cs += [Case(localize, arch=a, n=n, style=s, batch=b, use_jax=j) for a, n in (('tree', 4), ('chain', 4), ('rect', 4), ('rect', 3), ('gaps', 4), ('triangular', 4), ('cascade', 4), ('butterfly', 4))
           for s, b, j in (('top', 0, True), ('bottom', 2, True), ('top', 3, False), ('bottom', 0, False))]
    return cs
