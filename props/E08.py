"""Absorbing layers: the coordinate stretching of the frequency-domain grid, and the thickness and placement of layers."""
from symx.harness import Case, BadPoint
from .gridlib import *

FUNCTIONS = ['fdfd.FDFD.scpml', 'fdfd.FDFD.__init__', 'fdfd.FDFD.from_simgrid', 'grid.YeeGrid.__init__', 'grid.YeeGrid.pml_safe_placement', 'fdtd.FDTD.__init__']


def build(I, shape, t, m, params='sym', d=None):
    from simphox.fdfd import FDFD
    d = d or tuple(I.pos(f'd{i}', 0.01, 2.0) for i in range(len(shape)))
    w = I.pos('wavelength', 0.3, 3.0)
    lnr = -I.pos('lnr', 1.0, 40.0)
    corr = I.pos('corr', 0.5, 12.0)
    # thickness and size within a pixel's rounding
    g = FDFD(tuple(n * x for n, x in zip(shape, d)), np.array(d, dtype=object if I.sym else float), wavelength=w, pml=tuple(k * x for k, x in zip(t, d)), pml_params=(m, lnr, corr))
    return g, d, 2 * np.pi / w, lnr, corr


def stretch(I, shape, t, m):
    """1 - i sigma / k0 with sigma growing from zero inside to its largest value at the edge of the grid as a polynomial of the depth"""
    g, d, k0, lnr, corr = build(I, shape, t, m)
    for ax, n in enumerate(shape):
        both = g.scpml(ax)
        I.true(len(both) == 2, 'a stretching for each of the staggered positions')
        top = -(m + 1) * lnr / 2 / corr / k0  # of a wave that crosses the whole layer
        k = t[ax]
        for off, s in zip((0.5, 0.0), both):
            I.true(s.shape == (n,), 'one factor for each cell')
            inner = s[k:n - k]
            I.eq(inner, inner * 0 + 1, 'nothing is stretched inside')
            re, im = I.np.real(s), I.np.imag(s)
            I.eq(re, re * 0 + 1, 'the length of cells is not changed')
            for lo, hi in ((range(k - 1, -1, -1), None), (range(n - k, n), None)):
                lo = list(lo)
                for i, j in zip(lo, lo[1:]):
                    I.le(im[j], im[i], 'absorption does not decrease with depth')
                I.le(im[lo[0]], 0, 'layers absorb')
                for i in lo:
                    depth = (k - (i + off)) if i < k else (i + off) - (n - k)  # cells from the inner edge of the layer
                    a, b = max(depth - 0.5, 0) / k, min(depth + 0.5, k) / k
                    I.le(top * a ** m, -im[i], 'absorption grows as documented (lower bound)')
                    I.le(-im[i], top * b ** m, 'absorption grows as documented (upper bound)')
        # forward differences (the first factor) lie half a cell after backward ones (the second)
        e, h = (-I.np.imag(s) for s in both)
        for i in list(range(k)) + list(range(n - k, n)):
            ends = [h[i], h[i + 1] if i + 1 < n else None]
            if i < k:
                ends.reverse()
            for q, x, y in ((0, ends[0], e[i]), (1, e[i], ends[1])):
                if x is not None and y is not None:
                    I.le(x, y, 'absorption midway is between that at both ends of a cell')
    # the derivatives use the factors on the cells
    for j, c in enumerate(g._dxes):
        for ax, n in enumerate(shape):
            s = g.scpml(ax)[j] * d[ax]
            I.eq(c[ax], s.reshape([-1 if a == ax else 1 for a in range(3)]) + c[ax] * 0, 'cells of the derivatives')


def thickness(I, n=24, cls='FDFD', d=0.1, k=None):
    """layers are as thick as asked for, to the nearest pixel; too thin and too thick ones are refused"""
    import simphox.fdfd, simphox.fdtd, simphox.sim
    c = {'FDFD': simphox.fdfd.FDFD, 'FDTD': simphox.fdtd.FDTD, 'SimGrid': simphox.sim.SimGrid}[cls]
    if k is not None:
        pml = (k * d, 5 * d)
    else:
        pml = (I.real('x', 0.0, n * d * 0.6), 5 * d)
    try:
        g = c((n * d, 14 * d), d, pml=pml)
    except AttributeError:
        if k is not None:
            I.true(k <= 3 or k >= n // 2, 'only unusable layers are refused')
        else:
            x = pml[0] / d
            I.true((x <= 3.5) | (x >= n // 2 - 0.5) if not I.sym else I.np.logical_or(x <= 3.5, x >= n // 2 - 0.5), 'only unusable layers are refused')
        return
    t = g.pml_shape[0]
    if k is not None:
        I.true(int(t) == k, 'thickness of the layer')
    else:
        I.le(abs(t - pml[0] / d), 0.5, 'thickness of the layer')
    I.true(bool(t >= 4), 'layers too thin are refused')      # t is a number on each path
    I.true(bool(t < n // 2), 'layers that meet are refused')
    I.true(int(g.pml_shape[1]) == 5, 'thickness of the other layer')


def converted(I, cls, pml, params, bloch):
    """an FDFD made from another simulation has its layers, permittivity, ports and boundary conditions"""
    from simphox.fdfd import FDFD
    from simphox.fdtd import FDTD
    from simphox.grid import Port
    from simphox.sim import SimGrid
    shape, d = (12, 12), (0.3, 0.2)
    eps = eps_of(I, shape)
    w = I.pos('wavelength', 0.3, 3.0)
    k = dict(eps=eps, pml=tuple(n * x for n, x in zip(pml, d)) if pml else None, pml_sep=3, name='a')
    if params:
        k['pml_params'] = params
    if cls == 'SimGrid' and bloch:
        k['bloch_phase'] = bloch
    sim = {'SimGrid': SimGrid, 'FDTD': FDTD}[cls](tuple(n * x for n, x in zip(shape, d)), d, **k)
    sim.port = {'p': Port(1.0, 1.2, 180, 0.4)}
    if cls == 'FDTD' or params:
        k['pml_params'] = tuple(params or (3, -25, 1))[:3]
    a, b = FDFD.from_simgrid(sim, w), FDFD(tuple(n * x for n, x in zip(shape, d)), d, wavelength=w, **k)
    for x, y in zip(a._dxes, b._dxes):
        for u, v in zip(x, y):
            I.eq(u, v, 'cells')
    I.eq(a.eps, eps, 'permittivity')
    I.eq(a.k0, b.k0, 'wavelength')
    I.eq(a.bloch, b.bloch, 'Bloch phases')
    I.true(a.port == sim.port and a.name == 'a', 'ports and name')
    xyz = (I.real('x', -5, 5), I.real('y', -5, 5), 0)
    for u, v in zip(a.pml_safe_placement(xyz), b.pml_safe_placement(xyz)):
        I.eq(u, v, 'safe placements')


def safe(I, cls='SimGrid', pml=None, sep=5, shape=(30, 40), d=(0.5, 0.25)):
    """placements are moved as little as needed to be away from layers and edges"""
    from simphox.sim import SimGrid
    from simphox.fdfd import FDFD
    k = dict(pml=tuple(p * x for p, x in zip(pml, d))) if pml else {}
    g = (FDFD if cls == 'FDFD' else SimGrid)(tuple(n * x for n, x in zip(shape, d)), d, pml_sep=sep, **k)
    xyz = [I.real(a, -5, 25) for a in 'xyz']
    new = g.pml_safe_placement(tuple(xyz))
    for ax in range(2):
        margin = (pml[ax] + sep) if pml else 0
        lo, hi = margin * d[ax], (shape[ax] - 1 - margin) * d[ax]
        x, y = xyz[ax], new[ax]
        I.le(lo, y, 'away from the lower edge')
        I.le(y, hi, 'away from the upper edge')
        # nearest: equal to x, or at the bound on the side of x
        z = I.np.where(x < lo, lo, I.np.where(x > hi, hi, x)) if not I.sym else (lo if x < lo else hi if x > hi else x)
        I.eq(y, z, 'moved as little as needed')
    I.eq(new[2], xyz[2], 'not moved along z')


def cases(tier):
    cs = [Case(stretch, shape=s, t=t, m=m) for s, t, m in (((11, 12), (4, 5), 4), ((12, 10), (5, 4), 3), ((10, 10), (4, 4), 2), ((10, 10), (4, 4), 1), ((10, 11, 12), (4, 4, 5), 4))]
    cs += [Case(thickness, cls=c) for c in ('FDFD', 'FDTD', 'SimGrid')]
    cs += [Case(thickness, cls='FDFD', d=d, k=k) for d in (0.1, 0.05) for k in (3, 4, 6, 7, 10, 12)] + [Case(thickness, cls='FDTD', d=0.2, k=7)]
    cs += [Case(safe, pml=p, sep=s, cls=c) for p, s, c in ((None, 5, 'SimGrid'), ((4, 6), 5, 'SimGrid'), ((5, 4), 2, 'SimGrid'), ((4, 4), 5, 'FDFD'))]
    cs += [Case(converted, cls=c, pml=p, params=q, bloch=b) for c, p, q, b in (('SimGrid', (4, 5), None, None), ('SimGrid', (5, 4), (3, -20, 2.0), (0.5, -1.0)), ('FDTD', (4, 4), None, None), ('SimGrid', None, None, (0.3, 0.7)))]
    if tier == 'thorough':
        cs += [Case(stretch, shape=s, t=t, m=m) for m in (1, 2, 3, 4, 5, 6) for s, t in (((20, 16), (9, 7)), ((15, 30), (4, 12)))]
        cs += [Case(thickness, cls=c, d=d, n=60, k=k) for c in ('FDFD', 'FDTD') for d in (0.1, 0.05, 0.02, 0.025, 0.03) for k in range(2, 32)]
        cs += [Case(thickness, cls=c, d=d, n=40) for c in ('FDFD', 'FDTD') for d in (0.1, 0.03)]
        cs += [Case(safe, pml=p, sep=s, cls=c) for p in (None, (4, 4), (6, 5), (8, 8)) for s in (0, 1, 3, 5) for c in ('SimGrid', 'FDFD')]
    return cs
