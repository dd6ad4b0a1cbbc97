"""Port sources: the mode of the port is sent into the device and nothing is sent out, for every way of asking for a source.

Current lines radiate along the port's axis as exp(-i beta distance): a source sends sum(src exp(+i beta x)) towards +x and
sum(src exp(-i beta x)) towards -x. The modes are arbitrary (see modelib)."""
from symx.harness import Case
from .gridlib import *
from .modelib import LineModes, eigenpairs
from .E13 import Name, largest, window, outward

FUNCTIONS = ['sim.SimGrid.port_source', 'sim.SimGrid.port_modes', 'sim.SimGrid.modes', 'sim.SimCrossSection.place', 'sim.SimCrossSection.prop_axis', 'mode.ModeLibrary.place', 'parse.parse_source_port', 'parse.parse_excitation',
             'grid.Grid.slice', 'grid.YeeGrid.pml_safe_placement']

SP = (0.5, 0.25)
SHAPE = (11, 13)
# name, cell of the centre, angle, cells across
LAYOUT = {
    'x': [('a0', (4, 5), 180, 3), ('b0', (6, 7), 0, 4)],
    'y': [('a0', (4, 4), 270, 3), ('b0', (5, 8), 90, 4)],
    'turns': [('a0', (4, 5), -180, 3), ('b0', (6, 7), 360, 2), ('c0', (4, 3), -90, 4), ('d0', (5, 9), 450, 3)],
}


def grid(I, layout, hashes=None, cls=None, factor=3, shape=SHAPE, **k):
    from simphox.grid import Port
    from simphox.sim import SimGrid
    eps = eps_of(I, shape)
    g = (cls or SimGrid)(sizes(SP, shape), SP, eps=eps, **k)
    ports = {}
    for i, (name, c, a, n) in enumerate(LAYOUT[layout]):
        across = 1 if a % 180 == 0 else 0
        name = Name(name, hashes[i]) if hashes is not None else name
        ports[name] = (c, a, n, across)
        g.port[name] = Port(c[0] * SP[0], c[1] * SP[1], a, n * SP[across] / factor)
    largest(I, eps, ports)
    return g, eps, ports


def lines(I, src, port, beta, v, w, uni=True, label=''):
    """the source sends w times the mode into the device, nothing out of it, and lies on the outer side of the port"""
    c, a, n, across = port
    along = 1 - across
    s = outward(port)
    win = window(port)
    cells = range(win[across].start, win[across].stop)
    x = src.T if along == 1 else src  # lines along the second axis
    d = SP[along]
    N = x.shape[0]
    used = []
    for j in range(x.shape[1]):
        if j not in cells:
            I.eq(x[:, j], np.zeros(N), label + 'no source beside the port')
    out, into = [], []
    rel = np.arange(N) - c[along]
    up, down = I.np.exp(1j * beta * d * s * rel), I.np.exp(-1j * beta * d * s * rel)
    for j in cells:
        I.eq(x[:c[along], j] if s > 0 else x[c[along] + 1:, j], np.zeros(c[along] if s > 0 else N - c[along] - 1), label + 'the source is on the outer side')
        out.append(sum(x[i, j] * up[i] for i in range(N)))
        into.append(sum(x[i, j] * down[i] for i in range(N)))
    for j in range(n):
        if uni:
            I.eq(out[j], 0, label + 'nothing is sent out of the device')
        I.eq(into[j] * v[0], into[0] * v[j], label + 'profile of the mode')
    two = 1 - I.np.exp(-2j * beta * d) if uni else 1
    sq = lambda z: z * I.np.conj(z)
    I.eq(sq(into[0]), sq(w) * sq(v[0]) * sq(two), label + 'weight of the mode')


def source(I, layout, port=0, mode=0, uni=True, wavelength=1.55, how='pair', cls='SimGrid'):
    """one port"""
    import simphox.fdfd, simphox.fdtd, simphox.sim
    k = dict(wavelength=wavelength) if cls == 'FDFD' else {}
    g, eps, ports = grid(I, layout, cls={'SimGrid': simphox.sim.SimGrid, 'FDFD': simphox.fdfd.FDFD, 'FDTD': simphox.fdtd.FDTD}[cls], **k)
    p = list(ports)[port]
    lm = LineModes(I)
    w = 1 if how in ('name', 'none', 'names', 'label') else I.cplx('w')
    arg = {'pair': {(p, mode): w}, 'key': {p: w}, 'name': p, 'names': [p], 'label': [(p, mode)], 'none': None, 'weights': tuple([0] * port + [w])}[how]
    with eigenpairs(I, lm):
        src = g.port_source(arg, unidirectional=uni, wavelength=wavelength)
    I.true(src.shape == SHAPE, 'shape of the grid')
    beta, v = lm.line(ports[p][2], mode + 1)[mode]
    lines(I, src, ports[p], beta, v, w, uni)
    # the modes are those of the line of the port, at the wavelength of the source
    win = window(ports[p])
    A = [A for A in lm.calls if A.shape[0] == ports[p][2]][-1]
    n, d = ports[p][2], SP[ports[p][3]]
    line = eps[win[0], win[1]].flatten()
    probe = I.cplxs('probe', n)
    I.eq(A @ probe, (2 * np.pi / wavelength) ** 2 * line * probe + fdiff(I, bdiff(I, probe, 0, (n, 1, 1), d), 0, (n, 1, 1), d), 'modes of the port at the wavelength of the source')


def several(I, layout, what, hashes=None, form='dict', uni=True):
    """several ports and modes: the sum of the sources, each with its weight"""
    g, eps, ports = grid(I, layout, hashes)
    names = list(ports)
    lm = LineModes(I)
    ws = [I.cplx(f'w{i}') if form in ('dict', 'keys', 'weights') else 1 for i in range(len(what))]
    pairs = [(names[i], m) for i, m in what]
    arg = {'dict': dict(zip(pairs, ws)), 'keys': dict(zip([p for p, _ in pairs], ws)), 'weights': tuple(ws), 'list': pairs, 'names': [p for p, _ in pairs]}[form]
    with eigenpairs(I, lm):
        src = g.port_source(arg, unidirectional=uni)
        single = [g.port_source({p: 1}, unidirectional=uni) for p in pairs]
    I.eq(src, sum(w * s for w, s in zip(ws, single)), 'sum of the sources')
    for (p, m), s in zip(pairs, single):
        beta, v = lm.line(ports[p][2], m + 1)[m]
        lines(I, s, ports[p], beta, v, 1, uni)


def cases(tier):
    cs = [Case(source, layout=l, port=i, uni=u, how='pair') for l in ('x', 'y') for i in (0, 1) for u in (True, False)]
    cs += [Case(source, layout='turns', port=i) for i in range(4)]
    cs += [Case(source, layout='turns', port=i, how=h) for i, h in ((1, 'key'), (2, 'name'), (3, 'names'), (0, 'label'), (0, 'none'), (0, 'weights'), (1, 'weights'))]
    cs += [Case(source, layout=l, port=i, mode=1, wavelength=1.3) for l, i in (('x', 1), ('y', 0))] + [Case(source, layout='x', port=0, mode=2, uni=False, cls='FDFD', wavelength=0.9)]
    cs += [Case(source, layout=l, port=1, cls=c) for l in ('x', 'y') for c in ('FDFD', 'FDTD')]
    cs += [Case(several, layout='turns', what=w, hashes=h, form=f) for w, h, f in (
        ([(0, 0), (1, 0), (2, 0)], (3, 2, 1, 0), 'weights'), ([(3, 0), (0, 1), (0, 0)], None, 'dict'), ([(2, 0), (1, 0)], (1, 0, 3, 2), 'keys'), ([(1, 0), (3, 0)], (3, 0, 2, 1), 'names'), ([(1, 0), (3, 1), (0, 2)], None, 'list'))]
    cs += [Case(several, layout='x', what=[(1, 0), (0, 0)], form='dict', uni=False)]
    if tier == 'thorough':
        cs += [Case(source, layout=l, port=i, mode=m, uni=u, wavelength=wl, cls=c) for l in ('x', 'y', 'turns') for i in range(len(LAYOUT[l])) for m in range(3) for u in (True, False) for wl, c in ((1.31, 'SimGrid'), (0.775, 'FDFD'))]
        cs += [Case(several, layout='turns', what=w, hashes=h, form=f, uni=u) for u in (True, False) for h in ((0, 1, 2, 3), (3, 1, 0, 2), (2, 3, 1, 0)) for w, f in (
            ([(0, 0), (1, 0), (2, 0), (3, 0)], 'weights'), ([(3, 2), (3, 0), (3, 1), (0, 0)], 'dict'), ([(3, 0), (2, 0), (1, 0), (0, 0)], 'keys'), ([(2, 1), (1, 1), (0, 1)], 'list'))]
    return cs
