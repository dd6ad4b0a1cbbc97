"""Measurements at ports: the amplitudes of the wave that leaves and of the wave that enters, for the ports and modes asked for.

The fields at a port are a superposition of the outgoing and the incoming mode with arbitrary amplitudes, arbitrary elsewhere. The
modes are arbitrary (see modelib); port names are strings whose hash is chosen, so that no order of a set is relied upon."""
from symx.harness import Case
from .gridlib import *
from .modelib import LineModes, eigenpairs

FUNCTIONS = ['sim.SimGrid.get_measure_fn', 'sim.SimGrid.port_modes', 'sim.SimGrid.modes', 'sim.SimGrid.parse_excitation', 'mode.ModeLibrary.measure_fn', 'mode.ModeLibrary.e', 'mode.ModeLibrary.h',
             'grid.Grid.view_fn', 'grid.Grid.slice', 'grid.YeeGrid.pml_safe_placement', 'utils.poynting_fn', 'sim.SimCrossSection.prop_axis', 'fdfd.FDFD.sparams', 'sim.SimGrid.get_sim_sparams_fn', 'sim.SimGrid.get_sim_fn']


class Name(str):
    """a port name with a given hash"""
    def __new__(cls, s, h):
        x = super().__new__(cls, s)
        x.h = h
        return x

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return str.__eq__(self, o)


SP = (0.5, 0.25)
# name, cell of the centre, angle, cells across
LAYOUT = {
    'x': [('a0', (2, 5), 180, 3), ('b0', (7, 6), 0, 4)],
    'y': [('a0', (4, 3), 270, 3), ('b0', (5, 9), 90, 4)],
    'mixed': [('in', (2, 5), 180, 3), ('top', (5, 8), 90, 4), ('right', (7, 7), 0, 2)],
    'turns': [('p', (2, 5), -180, 3), ('q', (5, 8), 450, 4), ('r', (7, 7), 360, 2), ('s', (5, 2), -90, 3)],
}
SHAPE = (10, 12)


def grid(I, layout, hashes, cls=None, factor=3, **k):
    from simphox.grid import Port
    from simphox.sim import SimGrid
    cls = cls or SimGrid
    eps = eps_of(I, SHAPE)
    g = cls(sizes(SP, SHAPE), SP, eps=eps, **k)
    ports = {}
    for i, (name, c, a, n) in enumerate(LAYOUT[layout]):
        across = 1 if a % 180 == 0 else 0
        name = Name(name, hashes[i]) if hashes is not None else i
        ports[name] = (c, a, n, across)
        g.port[name] = Port(c[0] * SP[0], c[1] * SP[1], a, n * SP[across] / factor)
    largest(I, eps, ports)
    return g, eps, ports


def largest(I, eps, ports):
    """the centre of a line has the largest permittivity of the line (the guess handed to the eigensolver; else every order is a path)"""
    for port in ports.values():
        w = window(port)
        for i, j in np.ndindex(*eps.shape):
            if w[0].start <= i < w[0].stop and w[1].start <= j < w[1].stop and (i, j) != port[0]:
                I.assume(eps[port[0]] - eps[i, j] > 1e-2)


def window(port):
    """cells of the port"""
    c, a, n, across = port
    w = [slice(c[0], c[0] + 1), slice(c[1], c[1] + 1), slice(0, 1)]
    w[across] = slice(c[across] - n // 2, c[across] - n // 2 + n)
    return tuple(w)


def outward(port):
    """direction in which a wave leaves, along the axis of the port"""
    return 1 if port[1] % 360 in (0, 90) else -1


def wave(I, port, mode, eps, k0, tm, e, h, out, into):
    """superposition of a leaving and an entering mode (amplitudes of the transverse electric field) on the cells of the port"""
    c, a, n, across = port
    beta, v = mode
    w = window(port)
    shape = e[0][w].shape
    v = v.reshape(shape)
    s = outward(port)
    t = 1 if across == 1 else -1  # the transverse component of the other field is along y for waves along x, along x for waves along y
    if tm:
        e[across][w] = (out + into) * beta / k0 * v / eps.reshape((*SHAPE, 1))[w]
        h[2][w] = s * t * (out - into) * v
    else:
        e[2][w] = (out + into) * v
        h[across][w] = -s * t * (out - into) * beta / k0 * v


def check(I, layout, tm=True, jax=False, hashes=(0, 1, 2, 3), form='list', perm=None, multi=False, edit=False):
    g, eps, ports = grid(I, layout, hashes)
    names = list(ports)
    lm = LineModes(I)
    w = 1.3
    k0 = 2 * np.pi / w
    ask = [(p, 0) for p in names]
    if multi:
        ask = [(names[-1], 1)] + ask[:-1] + [(names[-1], 0)] + [(names[0], 1)]
    if perm:
        ask = [ask[i] for i in perm]
    given = {'none': None, 'list': ask, 'names': [p for p, _ in ask], 'dict': {p: [m for q, m in ask if q == p] for p, _ in ask}}[form]
    if form == 'dict':
        ask = [(p, m) for p in given for m in given[p]]
    e, h = [I.arr(np.array(I.cplxs(x, 3, *SHAPE, 1))) for x in 'eh']
    with eigenpairs(I, lm):
        if edit:
            g.get_measure_fn(given, wavelength=w)
            eps = I.poss('eps2', *SHAPE, lo=0.5, hi=12.0)
            largest(I, eps, ports)
            for port in ports.values():
                I.assume(eps[port[0]] - g.eps[port[0]] > 0.5)  # an edit that the port sees
            g.eps[:] = eps
            lm.key = lambda A: 'new'  # the modes of the new permittivity
        f = g.get_measure_fn(given, wavelength=w, use_jax=jax, tm_2d=tm)
    num = {p: max(m for q, m in ask if q == p) + 1 for p, _ in ask}
    modes = {p: lm.line(ports[p][2], num[p], 'new' if edit else '') for p in num}
    amps = {}
    done = {}
    for p, m in ask:
        if p in done:
            continue
        done[p] = m
        amps[p, m] = out, into = I.cplx(f'out_{p}'), I.cplx(f'in_{p}')
        wave(I, ports[p], modes[p][m], eps, k0, tm, e, h, out, into)
    j = I.jarr if jax and I.sym else (lambda x: x)
    r = f((j(e), j(h)))
    if jax:
        from symx.nd import SA, plain
        r = plain(r).view(SA) if I.sym else np.asarray(r)
    I.true(r.shape == (2, len(ask)), 'one pair of amplitudes for everything asked for')
    for i, (p, m) in enumerate(ask):
        if (p, m) in amps:
            I.eq(r[0][i], amps[p, m][0], 'amplitude of the leaving wave')
            I.eq(r[1][i], amps[p, m][1], 'amplitude of the entering wave')
    if multi:
        # the other modes of the ports, on their own
        for p, m in ask:
            if (p, m) not in amps:
                out, into = I.cplx(f'out_{p}_{m}'), I.cplx(f'in_{p}_{m}')
                wave(I, ports[p], modes[p][m], eps, k0, tm, e, h, out, into)
                r2 = f((j(e), j(h)))
                if jax:
                    r2 = plain(r2).view(SA) if I.sym else np.asarray(r2)
                i = ask.index((p, m))
                I.eq(r2[0][i], out, 'amplitude of the leaving wave (other mode)')
                I.eq(r2[1][i], into, 'amplitude of the entering wave (other mode)')


def sparams(I, layout, src, ask=None, jax=False, tm=True, hashes=(3, 2, 1, 0), how='sparams', wavelength=1.3):
    """s-parameters: leaving amplitudes per entering amplitude at the source, at the wavelength of the simulation; the fields the solver
    returns are arbitrary superpositions at the ports"""
    from simphox.fdfd import FDFD
    g, eps, ports = grid(I, layout, hashes, FDFD, wavelength=wavelength)
    names = list(ports)
    lm = LineModes(I)
    k0 = 2 * np.pi / wavelength
    want = [(names[i], m) for i, m in (ask or [(i, 0) for i in range(len(names))])]
    e, h = [I.arr(np.array(I.cplxs(x, 3, *SHAPE, 1))) for x in 'eh']
    num = {p: 1 for p in names}
    amps = {}
    for p in names:
        amps[p] = out, into = I.cplx(f'out_{p}'), I.polar(f'in_{p}')
        wave(I, ports[p], lm.line(ports[p][2], 1)[0], eps, k0, tm, e, h, out, into)
    seen = []
    source = names[src]
    with eigenpairs(I, lm):
        if how == 'sparams':
            g.solve = lambda s, **k: seen.append(s) or (e, h)
            r = g.sparams(source, 0, want if ask else None)
        else:
            from symx.nd import SA, plain
            j = I.jarr if I.sym else (lambda x: x)
            fields = (j(e), j(h))
            g.get_fields_fn = lambda s=None, t=None, tm_2d=True, src=None, transform_fn=None: seen.append(src if s is None else s) or (lambda rho: fields)
            if how == 'fn':
                r, f2 = g.get_sim_sparams_fn(source, measure_info=want if ask else None, tm_2d=tm)(eps)
            else:
                (so, si), f2 = g.get_sim_fn(I.cplxs('s', *SHAPE), tm_2d=tm)(eps)
                I.eq(plain(si).view(SA) if I.sym else np.asarray(si), I.arr(np.array([amps[p][1] for p, _ in want])), 'entering amplitudes')
                r = so
            r = plain(r).view(SA) if I.sym else np.asarray(r)
            I.true(f2 is fields, 'fields are returned')
        if how != 'sim':
            ref = g.port_source({(source, 0): 1}, wavelength=wavelength)
            I.eq(seen[0], ref, 'source of the port at the wavelength of the simulation')
    I.true(r.shape == (len(want),), 'one s-parameter for everything asked for')
    for i, (p, m) in enumerate(want):
        I.eq(r[i] * (amps[source][1] if how != 'sim' else 1), amps[p][0], 's-parameter')


def library(I, ndim, tm, jax, k=2):
    """amplitudes of the modes of a library in a superposition of its own fields"""
    from simphox.mode import ModeLibrary, ModeSolver
    from .modelib import Pairs
    sp = SP[:ndim]
    if ndim == 2:
        k, shape, eps = 1, (2, 2), np.array([[12.25, 2.25], [4.0, 1.0]])
    else:
        shape = (3,)
        eps = eps_of(I, shape)
        for i in (1, 2):
            I.assume(eps[0] - eps[i] > 1e-2)
    with eigenpairs(I, Pairs(I, order=range(k))):
        lib = ModeLibrary(ModeSolver(sizes(sp, shape), sp, eps=eps, wavelength=1.3), k)
    j = I.jarr if jax and I.sym else (lambda x: x)
    for m in range(k):
        em, hm = lib.e(m, tm_2d=tm), lib.h(m, tm_2d=tm)
        out, into = I.cplx(f'out{m}'), I.cplx(f'in{m}')
        r = lib.measure_fn(m, use_jax=jax, tm_2d=tm)(j((out + into) * em), j((out - into) * hm))
        if jax:
            from symx.nd import SA, plain
            r = plain(r).view(SA) if I.sym else np.asarray(r)
        I.true(r.shape == (2,), 'two amplitudes')
        I.eq(r[0], out, 'amplitude of the forward wave')
        I.eq(r[1], into, 'amplitude of the backward wave')


def wavelengths(I):
    """modes are solved for at the wavelength they are asked for"""
    g, eps, ports = grid(I, 'x', (0, 1))
    p = list(ports)[0]
    w = window(ports[p])
    line = eps[w[0], w[1]].flatten()
    n = len(line)
    lm = LineModes(I)
    used = []
    names = {}
    lm.key = lambda A: names.setdefault(id(A), str(len(names)))
    probe = I.cplxs('probe', n)
    with eigenpairs(I, lm):
        for wl in (1.3, 1.55, 1.3, 0.9):
            used.append(g.port_modes([(p, 0)], wavelength=wl)[p])
    for s, wl in zip(used, (1.3, 1.55, 1.3, 0.9)):
        k0 = 2 * np.pi / wl
        I.eq(s.io.solver.k0, k0, 'wavelength of the modes')
        I.eq(s.io.solver.C @ probe, k0 ** 2 * line * probe + fdiff(I, bdiff(I, probe, 0, (n, 1, 1), SP[1]), 0, (n, 1, 1), SP[1]), 'line and spacing of the port')
        I.true(s.wavelength == wl, 'wavelength of the cross-section')


def cases(tier):
    cs = [Case(check, layout=l, tm=t, jax=j) for l in ('x', 'y', 'mixed') for t in (True, False) for j in (False, True)]
    cs += [Case(check, layout='turns', tm=t, form='none') for t in (True, False)]
    cs += [Case(check, layout='mixed', hashes=h, perm=p, form=f) for h in ((2, 1, 0), (1, 2, 0)) for p, f in (((2, 0, 1), 'list'), ((1, 0), 'names'), ((1, 2, 0), 'dict'))]
    cs += [Case(check, layout='mixed', hashes=None, perm=(2, 0))]
    cs += [Case(check, layout=l, multi=True, form=f) for l in ('x', 'y') for f in ('list', 'dict')] + [Case(check, layout='mixed', multi=True, jax=True)]
    cs += [Case(check, layout=l, edit=True, tm=t) for l, t in (('x', True), ('y', False))]
    cs += [Case(sparams, layout=l, src=s, ask=a) for l, s, a in (('x', 0, None), ('mixed', 1, None), ('mixed', 0, [(2, 0), (0, 0)]), ('y', 1, [(1, 0)]))]
    cs += [Case(sparams, layout=l, src=s, ask=a, how='fn', tm=t) for l, s, a, t in (('x', 0, None, True), ('mixed', 1, None, False), ('mixed', 0, [(2, 0), (0, 0)], True))]
    cs += [Case(sparams, layout='mixed', src=0, how='sim', tm=t) for t in (True, False)]
    cs += [Case(wavelengths)]
    cs += [Case(library, ndim=n, tm=t, jax=j) for n, t in ((1, True), (1, False), (2, True)) for j in (False, True)]
    if tier == 'thorough':
        cs += [Case(check, layout='turns', tm=t, jax=j, hashes=h, form=f, perm=p) for t in (True, False) for j in (False, True) for h in ((0, 1, 2, 3), (3, 1, 0, 2), (2, 3, 1, 0)) for f, p in (('list', (3, 1, 0, 2)), ('names', (2, 0, 3)), ('dict', (1, 3)))]
        cs += [Case(check, layout='turns', tm=t, multi=True, edit=e) for t in (True, False) for e in (False, True)]
        cs += [Case(sparams, layout='turns', src=s, ask=a, how=how, tm=t) for s, a in ((0, None), (2, [(3, 0), (2, 0)]), (3, [(1, 0), (3, 0), (0, 0)])) for how, t in (('sparams', True), ('fn', True), ('fn', False))]
    return cs
