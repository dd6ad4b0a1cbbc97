"""Propagation: the fields reported along the mesh are those of the physical components, and the last one is the mesh output."""
from symx.harness import Case
from .meshlib import *


def ref_explicit(I, mesh, style, p, err, loss, x, back):
    """list of fields: input, then (per column) after each of the four components, with the output phases"""
    th, ph, ga = p
    rows = [x[i] for i in range(mesh.n)]
    out = [rows]
    gam = lambda rows: [I.np.exp(1j * ga[i]) * rows[i] for i in range(mesh.n)]
    if back:
        rows = gam(rows)
        out.append(rows)
    nodes = mesh_nodes(mesh)
    cols = sorted({c for c, _, _, _ in nodes}, reverse=back)
    for c in cols:
        for k in ((3, 2, 1, 0) if back else (0, 1, 2, 3)):
            for cc, t, b, i in nodes:
                if cc != c:
                    continue
                if not back:
                    # each attenuating phase shifter acts together with the component after it
                    st = stages(I, style, th[i], ph[i], err[i])
                    at = stages(I, style, 0, 0, err[i], loss[i])
                    m = st[k]
                    if k in (1, 3):
                        m = mm(m, at[k - 1])
                else:
                    st = stages(I, style, th[i], ph[i], err[i])
                    at = stages(I, style, 0, 0, err[i], loss[i])
                    m = st[k]
                    m = [[m[0][0], m[1][0]], [m[0][1], m[1][1]]]
                    if k in (1, 3):
                        m = mm(at[k - 1], m)
                rows = apply2(I, rows, t, b, m)
            out.append(rows)
    if not back:
        out.append(gam(rows))
    return out


def explicit(I, arch, n, style, back, use_jax, lossy):
    mesh = make(arch, n, style)
    p = sym_params(I, mesh)
    err, loss = sym_errors(I, mesh), sym_losses(I, mesh, lossy)
    x = I.cplxs('x', mesh.n, 2)
    prop = mesh.propagate_matrix_fn(back=back, use_jax=use_jax)(p, x, err, loss)
    ref = ref_explicit(I, mesh, style, p, err, loss, x, back)
    I.true(prop.shape[0] == len(ref), 'one field per component')
    I.eq(prop[0], x, 'starts at the input')
    for i in range(1, min(len(ref), prop.shape[0])):
        if back and i == len(ref) - 1 or not back and i in (len(ref) - 1,):
            I.eq(prop[i], I.np.stack(ref[i]), 'ends at the output')
        else:
            I.eq(prop[i], I.np.stack(ref[i]), 'field after every component')


def implicit(I, arch, n, style, back, use_jax):
    """node by node: the field after every column, ending at the mesh output"""
    mesh = make(arch, n, style)
    p = sym_params(I, mesh)
    err, loss = sym_errors(I, mesh), sym_losses(I, mesh, False)
    x = I.cplxs('x', mesh.n, 2)
    prop = mesh.propagate_matrix_fn(back=back, use_jax=use_jax, explicit=False)(p, x, err, loss)
    out = mesh.matrix_fn(back=back)(p, x, err, loss)
    I.eq(prop[-1], out, 'ends at the output')
    I.true(prop.shape[0] == len({int(nd.column) for nd in mesh.nodes}) + 2, 'one field per column')
    rows = [x[i] for i in range(mesh.n)]
    k = 1
    if back:
        rows = [I.np.exp(1j * p[2][i]) * rows[i] for i in range(mesh.n)]
        I.eq(prop[1], I.np.stack(rows), 'output phases first')
        k = 2
    for c in sorted({int(nd.column) for nd in mesh.nodes}, reverse=back):
        for cc, t, b, i in mesh_nodes(mesh):
            if cc == c:
                m = node_ref(I, style, p[0][i], p[1][i], err[i])
                if back:
                    m = [[m[0][0], m[1][0]], [m[0][1], m[1][1]]]
                rows = apply2(I, rows, t, b, m)
        I.eq(prop[k], I.np.stack(rows), 'field after every column')
        k += 1


def partial(I, arch, n, back):
    """a column cutoff c stops (forward) before column c, or starts (backward) at that many columns from the input"""
    mesh = make(arch, n, 'top')
    mesh.params = p = sym_params(I, mesh)
    x = I.cplxs('x', mesh.n, 1)
    for cut in range(0, mesh.num_columns):
        prop = mesh.propagate(x, back=back, column_cutoff=cut, explicit=False)
        rows = [x[i] for i in range(mesh.n)]
        for c in sorted({int(nd.column) for nd in mesh.nodes}, reverse=back):
            if (back and c > mesh.num_columns - cut) or (not back and c >= cut):
                continue
            for cc, t, b, i in mesh_nodes(mesh):
                if cc == c:
                    m = node_ref(I, 'top', p[0][i], p[1][i], (0., 0.))
                    if back:
                        m = [[m[0][0], m[1][0]], [m[0][1], m[1][1]]]
                    rows = apply2(I, rows, t, b, m)
        I.eq(prop[-1], I.np.stack(rows), 'partial propagation')


def default(I, arch, n, back, explicit):
    """without inputs, the fields of light in each of the ports; real inputs are inputs like any other"""
    mesh = make(arch, n, 'top')
    mesh.params = sym_params(I, mesh)
    one = np.eye(mesh.n) + 0j
    I.eq(mesh.propagate(back=back, explicit=explicit), mesh.propagate_matrix_fn(back=back, explicit=explicit)(mesh.params, I.arr(one)), 'fields of all ports')
    x = I.reals('x', mesh.n, 2)
    x0 = x.copy()
    out = mesh.propagate(x, back=back, explicit=explicit)
    I.eq(out[-1], mesh.matrix(back=back) @ x, 'real inputs end at the matrix applied to them')
    I.eq(x, x0, 'inputs stay')


def cases(tier):
    cs = []
    archs = [('tree', 3), ('tree', 4), ('chain', 3), ('rect', 3), ('embedded', 3), ('gaps', 3)] + ([('gaps', 4), ('rect', 4), ('triangular', 4), ('butterfly', 4)] if tier != 'quick' else [])
    for a, n in archs:
        for back in (False, True):
            for s in ('top', 'bottom'):
                for j in (False, True):
                    cs.append(Case(explicit, arch=a, n=n, style=s, back=back, use_jax=j, lossy=not j and n <= 3))
            for s in STYLES:
                for j in (False, True):
                    if j and s in ('symmetric', 'differential') and n > 3:
                        continue
                    cs.append(Case(implicit, arch=a, n=n, style=s, back=back, use_jax=j))
            cs.append(Case(partial, arch=a, n=n, back=back))
            cs += [Case(default, arch=a, n=n, back=back, explicit=e) for e in (False, True)]
    return cs
