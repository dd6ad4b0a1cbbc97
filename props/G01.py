"""Regions of a grid: setting the permittivity, filling and adding layers, masks and views mean the pixels of the region asked for."""
from symx.harness import Case, BadPoint
from symx.nd import SA, plain
from .gridlib import *

FUNCTIONS = ['grid.Grid.__init__', 'grid.Grid.slice', 'grid.Grid.set_eps', 'grid.Grid.mask', 'grid.Grid.mask_fn', 'grid.Grid.fill', 'grid.Grid.add', 'grid.Grid.view_fn']


def eps_all(I, shape):
    return eps_of(I, shape)


def marked(I, a, b, val):
    """pixels of a that hold val, the others must be those of b (decided cell by cell)"""
    n = a.shape
    on = np.zeros(n, dtype=bool)
    for i in np.ndindex(*n):
        if I.sym:
            x = plain(a)[i] - plain(b)[i]
            on[i] = not (x.is_zero() if hasattr(x, 'is_zero') else x == 0)
        else:
            on[i] = a[i] != b[i]
        I.eq(a[i], val if on[i] else b[i], 'pixels are set to the value or left alone')
    return on


def interval(I, on, ax, label='the region is a box'):
    """range of marked pixels along an axis"""
    other = tuple(a for a in range(on.ndim) if a != ax)
    line = on.any(axis=other)
    i = np.flatnonzero(line)
    if not len(i):
        return 0, 0
    I.true(len(i) == i[-1] - i[0] + 1, label)
    return int(i[0]), int(i[-1]) + 1


def off_ties(I, *xs):
    """replays keep away from half pixels, where rounding errors decide"""
    for x in xs:
        if not I.sym and abs(x - np.floor(x) - 0.5) < 1e-6:
            raise BadPoint('tie')


def either(I, label, *conds):
    for c in conds:
        if c:
            return
    I.true(False, label)


def along(I, a, b, n, c, s, exact=None):
    """marked pixels a..b of n against a region of centre c and size s (in pixels)"""
    if exact is not None:
        I.true((a, b) == exact, 'pixels of a region that ends at pixel edges')
        return
    m = b - a
    if m == 0:
        # nothing of the region is on the grid
        either(I, 'a region on the grid has pixels', c + s / 2 <= 1.5, c - s / 2 >= n - 1.5)
        return
    if 0 < a and b < n:
        if m == 1:
            I.le(s, 1.5, 'number of pixels')
        else:
            I.le(abs(m - s), 0.5, 'number of pixels')
    if 0 < a:
        I.le(abs(a - (c - s / 2)), 1.5, 'lower end of the region')
    else:
        I.le(c - s / 2, 1.5, 'lower end of the region')
    if b < n:
        I.le(abs(b - (c + s / 2)), 1.5, 'upper end of the region')
    else:
        I.le(n - 1.5, c + s / 2, 'upper end of the region')


def region(I, shape, d, ax, aligned=False, what='both'):
    """set_eps, mask, mask_fn and slice mean the same pixels: those of the region, to the nearest pixel, within the grid"""
    from simphox.grid import Grid
    nd = len(shape)
    eps = eps_of(I, shape)
    val = I.pos('val', 20.0, 30.0)
    g = Grid(tuple(n * x for n, x in zip(shape, d)), d, eps=eps.copy())
    n = shape[ax]
    # fixed box of two pixels along the other axes
    wide = [2 if k > 1 else 0 for k in shape]
    c, s = [x * (w // 2) for x, w in zip(d, wide)] + [0.0] * (3 - nd), [x * w for x, w in zip(d, wide)] + [0.0] * (3 - nd)
    exact = None
    if aligned:
        k, h = aligned
        cc, ss = float(k), float(2 * h)
        exact = (max(k - h, 0), min(k + h, n)) if k + h > 0 and k - h < n else (0, 0)
    else:
        cc = I.real('c', 0, n - 0.6)
        ss = I.real('s', 0, n + 1)
        off_ties(I, cc, ss)
    c[ax], s[ax] = cc * d[ax], ss * d[ax]
    c, s = tuple(c), tuple(s)
    old = g.eps.copy()
    r = g.set_eps(c, s, val)
    I.true(r is g, 'chaining')
    I.true(g.eps.shape == tuple(shape), 'shape of the grid')
    on = marked(I, g.eps, old, val)
    a, b = interval(I, on, ax)
    along(I, a, b, n, cc, ss, exact)
    for o in range(nd):
        if o != ax and b > a:
            I.true(interval(I, on, o) == (0, wide[o] or 1), 'pixels along the other axes')
    m = g.mask(c, s)
    I.true(tuple(m.shape) == tuple(shape), 'shape of the mask')
    I.eq(m, on.astype(float), 'mask of the region')
    rho = I.reals('rho', *shape)
    j = I.jarr if I.sym else (lambda x: x)
    out = g.mask_fn(s, c)(j(rho))
    out = plain(out).view(SA) if I.sym else np.asarray(out)
    I.eq(out, I.np.where(on, rho, g.eps), 'the design changes within the region only')
    sl = g.slice(c, s, squeezed=False)
    idx = np.zeros(tuple(g.shape3), dtype=bool)
    idx[sl] = True
    I.true(bool(np.all(idx.reshape(shape) == on)), 'slice of the region')


def fill(I, shape, d, k=None, h0=False):
    """layers up to a height, to the nearest pixel; zero fills everything"""
    from simphox.grid import Grid
    eps = eps_of(I, shape)
    val = I.pos('val', 20.0, 30.0)
    g = Grid(tuple(n * x for n, x in zip(shape, d)), d, eps=eps.copy())
    n, dz = shape[-1], d[-1]
    h = 0 if h0 else k * dz if k is not None else I.pos('h', 1e-3, (n + 1) * dz)
    off_ties(I, h / dz)
    r = g.fill(h, val)
    I.true(r is g and g.eps.shape == tuple(shape), 'chaining')
    on = marked(I, g.eps, eps, val)
    a, b = interval(I, on, len(shape) - 1)
    I.true(a == 0 and bool(np.all(on[..., :b])), 'layers from the bottom up')
    if h0:
        I.true(b == n, 'everything is filled')
    elif k is not None:
        I.true(b == min(k, n), 'number of layers')
    elif b < n:
        I.le(abs(b - h / dz), 0.5, 'number of layers')
    else:
        I.le(n - 0.5, h / dz, 'number of layers')


class Component:
    def __init__(self, m, bounds, port):
        self.m, self.bounds, self.port = m, bounds, port

    def mask(self, shape, spacing):
        self.asked = tuple(shape), tuple(spacing)
        return self.m


def add(I, shape, d, layers=False, beyond=False):
    """a pattern is added on its mask, and on its layers in 3D; its ports are placed at the middle of the layers"""
    from simphox.grid import Grid, Port
    nd = len(shape)
    eps = eps_of(I, shape)
    val = I.pos('val', 20.0, 30.0)
    size = tuple(n * x for n, x in zip(shape, d))
    g = Grid(size, d, eps=eps.copy())
    rng = np.random.default_rng(3)
    m = np.zeros((shape[0] + 1, shape[1] + 1))  # masks may reach one pixel beyond
    m[:shape[0], :shape[1]] = rng.integers(0, 2, shape[:2])
    bounds = (0.0, 0.0, size[0], size[1])
    if beyond:
        bounds = [I.real(f'b{i}', -1, 3) for i in range(4)]
    comp = Component(m, bounds, {'a': Port(0.5, 0.7, 180, 0.3), 'b': Port(1.0, 0.2, 90, 0.4)})
    kw = {}
    if nd == 3:
        z, t = (I.pos('z', 1e-3, 1.2), I.pos('t', 1e-3, 1.2)) if layers else (d[2], 2 * d[2])
        off_ties(I, z / d[2], (z + t) / d[2])
        kw = dict(zmin=z, thickness=t)
    inside = True
    if beyond:
        inside = [bounds[0] >= 0, bounds[1] >= 0, bounds[2] <= size[0], bounds[3] <= size[1]]
    try:
        r = g.add(comp, val, **kw)
    except ValueError:
        I.true(beyond, 'patterns on the grid are accepted')
        if beyond:
            either(I, 'only patterns beyond an edge are refused', bounds[0] < 0, bounds[1] < 0, bounds[2] > size[0], bounds[3] > size[1])
        return
    if beyond:
        for x in bounds[:2]:
            I.le(0, x, 'patterns beyond an edge are refused')
        for x, s in zip(bounds[2:], size):
            I.le(x, s, 'patterns beyond an edge are refused')
    I.true(r is g and comp in g.components, 'chaining')
    I.true(comp.asked[0] == tuple(shape[:2]) and all(abs(float(x) - y) < 1e-12 for x, y in zip(comp.asked[1], d[:2])), 'mask asked for')
    on = marked(I, g.eps, eps, val)
    want = m[:shape[0], :shape[1]] == 1
    if nd == 2:
        I.true(bool(np.all(on == want)), 'pixels of the pattern')
    else:
        a, b = interval(I, on, 2)
        full = np.zeros(shape, dtype=bool)
        full[want, a:b] = True
        I.true(bool(np.all(on == full)), 'pixels of the pattern')
        if b > a:
            for end, x in ((a, z), (b, z + t)):
                if end < shape[2]:
                    I.le(abs(end - x / d[2]), 0.5, 'layers of the pattern')
                else:
                    I.le(shape[2] - 0.5, x / d[2], 'layers of the pattern')
    I.true(list(g.port) == ['a', 'b'], 'ports of the pattern')
    for k, p in g.port.items():
        q = comp.port[k]
        I.true((p.x, p.y, p.a, p.w) == (q.x, q.y, q.a, q.w), 'ports of the pattern')
        if nd == 3:
            I.eq(p.z, z + t / 2, 'height of the port')
            I.eq(p.h, t, 'height of the port')


def history(I, shape, d):
    """later edits win, earlier ones stay elsewhere"""
    from simphox.grid import Grid
    eps = eps_of(I, shape)
    v = [I.pos(f'val{i}', 20.0, 30.0) for i in range(3)]
    g = Grid(tuple(n * x for n, x in zip(shape, d)), d, eps=eps.copy())
    boxes = [((1, 1), (2, 2)), ((2, 2), (2, 2)), ((2, 1), (4, 2))]
    ref = eps.copy()
    pad = (0,) * (3 - len(shape))
    for (c, s), x in zip(boxes, v):
        if len(shape) == 3:
            c, s = c + (1,), s + (2,)
        g.set_eps(tuple(a * b for a, b in zip(c, d)) + pad, tuple(a * b for a, b in zip(s, d)) + pad, x)
        ref[tuple(slice(a - b // 2, a + b // 2) for a, b in zip(c, s))] = x
        I.eq(g.eps, ref, 'permittivity after every edit')


def view(I, shape, d, centre, size, axis, jax=False):
    """fields seen by a cross-section: its pixels, with axes and components (across, across, along)"""
    from simphox.grid import Grid
    g = Grid(tuple(n * x for n, x in zip(shape, d)), d)
    n3 = shape3(shape)
    f = I.cplxs('f', 3, *n3)
    pad = (0,) * (3 - len(shape))
    v = g.view_fn(tuple(a * b for a, b in zip(centre, d)) + pad, tuple(a * b for a, b in zip(size, d)) + pad, use_jax=jax)
    out = v(I.jarr(f) if jax and I.sym else f)
    out = plain(out).view(SA) if I.sym else np.asarray(out)
    order = {0: (1, 2, 0), 1: (0, 2, 1), 2: (0, 1, 2)}[axis]
    sl = tuple(slice(c - s // 2, c - s // 2 + max(s, 1)) for c, s in zip(tuple(centre) + pad, tuple(size) + pad))
    ref = [f[order[k]][sl].transpose(order) for k in range(3)]
    I.true(out.shape == (3, *ref[0].shape), 'shape of the view')
    for k in range(3):
        I.eq(out[k], ref[k], 'component of the view')


def shift(I, n, integer, axis):
    """a shifted slice means the shifted pixels; open ends stay"""
    from simphox.utils import shift_slice
    a, w, k = I.int('a', 0, 3), I.int('w', 1, 3), I.int('k', 0, 3)
    x = I.reals('x', 10, 10)
    sl = [slice(1, 3), slice(2, 5)]
    sl[axis] = a if integer else slice(a, a + w)
    want = list(sl)
    want[axis] = a + k if integer else slice(a + k, a + w + k)
    got = shift_slice(tuple(sl), k, axis)
    I.true(type(got) is tuple, 'a tuple that indexes arrays')
    I.eq(x[got], x[tuple(want)], 'pixels of the shifted slice')
    I.eq(x[shift_slice(tuple(sl), axis=axis)], x[shift_slice(tuple(sl), 1, axis)], 'shifts by one pixel by default')
    for free in (slice(None), slice(a, None), slice(None, a + 1)):
        sl[axis] = free
        I.true(shift_slice(tuple(sl), k, axis) == tuple(sl), 'open slices stay')


def cases(tier):
    D2, D3 = (0.5, 0.25), (0.5, 0.25, 0.2)
    cs = [Case(region, shape=s, d=d, ax=a) for s, d, a in (((4, 3), D2, 0), ((3, 5), D2, 1), ((3, 2, 4), D3, 2), ((3, 3, 2), D3, 1), ((4, 2, 2), D3, 0), ((5,), (0.25,), 0))]
    cs += [Case(region, shape=(7, 3), d=D2, ax=0, aligned=(k, h)) for k, h in ((0, 1), (1, 2), (3, 1), (3, 2), (4, 3), (6, 2), (5, 1))] + [Case(region, shape=(3, 6), d=(0.1, 0.1), ax=1, aligned=(3, 1))]
    cs += [Case(region, shape=s, d=d, ax=a) for s, d, a in (((4, 1), D2, 0), ((1, 4), D2, 1), ((1, 2, 3), D3, 2))]
    cs += [Case(fill, shape=s, d=d) for s, d in (((2, 4), D2), ((2, 2, 4), D3), ((4,), (0.3,)))] + [Case(fill, shape=(2, 4), d=D2, h0=True)]
    cs += [Case(fill, shape=(2, 9), d=(0.1, 0.1), k=k) for k in (3, 6, 7, 9)]
    cs += [Case(add, shape=(3, 4), d=D2), Case(add, shape=(3, 2, 4), d=D3), Case(add, shape=(2, 3, 5), d=D3, layers=True), Case(add, shape=(3, 4), d=D2, beyond=True)]
    cs += [Case(history, shape=(5, 4), d=D2), Case(history, shape=(4, 4, 3), d=D3)]
    cs += [Case(view, shape=s, d=d, centre=c, size=z, axis=a, jax=j) for j in (False, True) for s, d, c, z, a in (
        ((4, 5), D2, (2, 3), (0, 3), 0), ((5, 4), D2, (2, 2), (4, 0), 1), ((3, 4, 5), D3, (1, 2, 2), (0, 2, 3), 0), ((4, 3, 5), D3, (2, 1, 3), (3, 0, 2), 1), ((4, 3, 3), D3, (2, 1, 1), (3, 2, 0), 2))]
    cs += [Case(shift, n=10, integer=i, axis=a) for i in (True, False) for a in (0, 1)]
    if tier == 'thorough':
        cs += [Case(region, shape=s, d=d, ax=a) for s, d, a in (((8, 3), D2, 0), ((3, 9), D2, 1), ((3, 2, 8), D3, 2), ((3, 7, 2), D3, 1), ((7, 2, 2), D3, 0), ((10,), (0.25,), 0))]
        cs += [Case(region, shape=(9, 3), d=(dd, dd), ax=0, aligned=(k, h)) for k in range(9) for h in range(1, 6) for dd in (0.5, 0.1)]
        cs += [Case(fill, shape=(2, 30), d=(dd, dd), k=k) for k in range(1, 31) for dd in (0.1, 0.05, 0.02)]
        cs += [Case(add, shape=s, d=D3, layers=True) for s in ((3, 2, 7), (2, 2, 8))]
    return cs
