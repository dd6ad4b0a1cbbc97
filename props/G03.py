"""Boxes: alignment and translation, the pixels they mean, and masks of design regions."""
from symx.harness import Case, BadPoint
from symx.nd import SA, plain
from .gridlib import *
from .modelib import Pairs, eigenpairs

FUNCTIONS = ['utils.Box.max', 'utils.Box.min_i', 'utils.Box.max_i', 'utils.Box.shape', 'utils.Box.center', 'utils.Box.slice', 'utils.Box.copy', 'utils.Box.mask', 'utils.Box.translate', 'utils.Box.align', 'utils.Box.halign',
             'utils.Box.valign', 'transform.get_mask_fn', 'grid.Grid.block_design', 'mode.ModeLibrary.from_block_design']


def box(I, n, spacing=1.0, lo=-3.0, hi=3.0, big=3.0, size=None, at=None):
    from simphox.utils import Box
    b = Box((1.0, 1.0), spacing=spacing)
    b.min = at or tuple(I.real(f'{n}{c}', lo, hi) for c in 'xy')
    b.size = size or tuple(I.pos(f'{n}{c}', 0.1, big) for c in 'wh')
    return b


def same(I, b, x0, y0, w, h, label):
    for u, v in zip([*b.min, *b.max, *b.center], [x0, y0, x0 + w, y0 + h, x0 + w / 2, y0 + h / 2]):
        I.eq(u, v, label)


def align(I):
    """boxes move as a whole: extents and centres agree, aligned boxes share centres, edges meet as asked, copies are independent"""
    a, b = box(I, 'a'), box(I, 'b')
    x, y, w, h = *a.min, *a.size
    X, Y, W, H = *b.min, *b.size
    same(I, a, x, y, w, h, 'extent and centre')
    dx, dy = I.real('dx', -2, 2), I.real('dy', -2, 2)
    c = a.copy
    I.true(c.translate(dx, dy) is c, 'chaining')
    same(I, c, x + dx, y + dy, w, h, 'translation')
    same(I, a, x, y, w, h, 'a copy moves on its own')
    c = a.copy.translate(dx)
    same(I, c, x + dx, y, w, h, 'translation along x only')
    c = a.copy.translate(dy=dy)
    same(I, c, x, y + dy, w, h, 'translation along y only')
    c = a.copy.align(b)
    same(I, c, X + (W - w) / 2, Y + (H - h) / 2, w, h, 'common centre')
    p = (I.real('px', -2, 2), I.real('py', -2, 2))
    c = a.copy.align(p)
    same(I, c, p[0] - w / 2, p[1] - h / 2, w, h, 'centre at a point')
    for left in (True, False):
        for opp in (True, False):
            c = a.copy.halign(b, left=left, opposite=opp)
            edge = X if left != opp else X + W
            same(I, c, edge if left else edge - w, y, w, h, f'horizontal alignment {left} {opp}')
            c = a.copy.valign(b, bottom=left, opposite=opp)
            edge = Y if left != opp else Y + H
            same(I, c, x, edge if left else edge - h, w, h, f'vertical alignment {left} {opp}')
        for v in (0.75, 2):
            same(I, a.copy.halign(v, left=left), v if left else v - w, y, w, h, f'horizontal alignment to a position {left}')
            same(I, a.copy.valign(v, bottom=left), x, v if left else v - h, w, h, f'vertical alignment to a position {left}')
    I.eq(a.copy.halign(b).min[0], X + W, 'beside by default')
    I.eq(a.copy.valign(b).min[1], Y + H, 'on top by default')
    same(I, b, X, Y, W, H, 'the other box stays')


def near(I, k, x, n, label):
    """pixel edge k of an axis of n pixels is the nearest to x on the grid"""
    if not I.sym and abs(x - np.floor(x) - 0.5) < 1e-6:
        raise BadPoint('tie')
    k = int(k)
    if k > 0:
        I.le(k - 0.5, x, label)
    if k < n:
        I.le(x, k + 0.5, label)


def pixels(I, shape, spacing, axis=0, fixed=(0.0, 1.0)):
    """slices, shapes and masks mean the pixels of the box, to the nearest pixel, within the array"""
    o = 1 - axis
    n = shape[axis]
    at, size = [fixed[0] * spacing] * 2, [fixed[1] * spacing] * 2
    at[axis], size[axis] = I.real('x', -2 * spacing, (n + 1) * spacing), I.pos('w', 0.1 * spacing, (n + 2) * spacing)
    b = box(I, 'a', spacing, at=tuple(at), size=tuple(size))
    x0, x1 = at[axis] / spacing, (at[axis] + size[axis]) / spacing
    for e, v in ((b.min_i[axis], x0), (b.max_i[axis], x1)):
        if not I.sym and abs(v - np.floor(v) - 0.5) < 1e-6:
            raise BadPoint('tie')
        I.le(abs(e - v), 0.5, 'edges at the nearest pixel')
    I.true(tuple(b.shape) == tuple(q - p for p, q in zip(b.min_i, b.max_i)), 'number of pixels')
    m = np.asarray(b.mask(np.zeros(shape)))
    I.true(m.shape == tuple(shape) and bool(np.all((m == 0) | (m == 1))), 'masks hold zeros and ones')
    line = m.any(axis=o)
    i = np.flatnonzero(line)
    if len(i):
        lo, hi = i[0], i[-1] + 1
        I.true(hi - lo == len(i), 'a box of pixels')
        near(I, lo, x0, n, 'first pixel of the mask')
        near(I, hi, x1, n, 'last pixel of the mask')
        across = np.flatnonzero(m.any(axis=axis))
        f0, f1 = int(round(fixed[0])), int(round(fixed[0] + fixed[1]))
        I.true(list(across) == list(range(max(f0, 0), min(f1, shape[o]))) and m.sum() == len(i) * len(across), 'pixels along the other axis')
    elif b.max_i[axis] > b.min_i[axis]:
        if not b.max_i[axis] <= 0:
            I.true(b.min_i[axis] >= n, 'a box on the array has pixels')


def regions(I, shape, boxes, single=False):
    """designs change within the boxes only, wherever these overlap; elsewhere the initial one stays"""
    from simphox.utils import Box
    from simphox.transform import get_mask_fn
    r0, rho = I.reals('r0', *shape), I.reals('rho', *shape)
    bs = [Box((float(w), float(h)), min=(float(x), float(y))) for x, y, w, h in boxes]
    on = np.zeros(shape, dtype=bool)
    for x, y, w, h in boxes:
        on[max(x, 0):max(x + w, 0), max(y, 0):max(y + h, 0)] = True
    j = I.jarr if I.sym else (lambda x: x)
    f = get_mask_fn(r0, bs[0] if single else bs)
    for k in range(2):
        out = f(j(rho))
        out = plain(out).view(SA) if I.sym else np.asarray(out)
        I.eq(out, I.np.where(on, rho, r0), 'the design changes within the regions only')
        rho = I.reals('rho1', *shape)


def blocks(I, kind, library=False):
    """cross-sections are built of the waveguides, gaps, layers and blocks asked for"""
    from simphox.grid import Grid
    from simphox.utils import Box
    n = (16, 12)
    d = 0.5
    e = {k: I.pos(k, lo, hi) for k, lo, hi in (('wg', 8, 9), ('sub', 2, 3), ('blk', 11, 12))}

    def wide(w, h, k):
        b = Box((w * d, h * d), spacing=d)
        b.eps = e[k]
        return b
    g = Grid((n[0] * d, n[1] * d), d, eps=np.ones(n) if not I.sym else I.np.ones(n))
    ref = np.ones(n, dtype=object) * 1.0
    kw = {}
    wg = wide(4, 2, 'wg')
    y0 = 5  # centred
    sub = kind.get('sub', 0)
    rib = kind.get('rib', 0)
    if rib:
        kw['rib_y'] = rib * d
        ref[:, :sub + rib] = e['wg']
        if sub:
            ref[:, :sub] = e['sub']
        else:
            kw['sub_eps'] = e['sub']
    elif sub:
        ref[:, :sub] = e['sub']
    else:
        ref[:] = e['sub']
    kw.update(sub_eps=e['sub'], sub_height=sub * d)
    if kind.get('wg_height'):
        y0 = kind['wg_height']
        kw['wg_height'] = y0 * d
    gap = kind.get('gap', 0)
    xs = [8 - 2] if not gap else [8 - gap // 2 - 4, 8 + gap // 2]
    if gap:
        kw['gap'] = gap * d
    for x in xs:
        ref[x:x + 4, y0:y0 + 2] = e['wg']
    if 'block' in kind:
        w, h = kind['block']
        s = kind['sep']
        kw.update(block=wide(w, h, 'blk'), sep=tuple(v * d for v in s) if isinstance(s, tuple) else s * d)
        s = s if isinstance(s, tuple) else (s, s)
        ends = (xs[0], xs[-1])
        if kind.get('vertical'):
            kw['vertical'] = True
            for x, v in zip(ends, s):
                p = x + 2 - w // 2
                ref[p:p + w, y0 + 2 + v:y0 + 2 + v + h] = e['blk']
        else:
            ref[ends[0] - s[0] - w:ends[0] - s[0], y0:y0 + h] = e['blk']
            ref[ends[1] + 4 + s[1]:ends[1] + 4 + s[1] + w, y0:y0 + h] = e['blk']
    if library:  # the same cross-section behind a mode library
        from simphox.mode import ModeLibrary
        if 'gap' in kw:
            kw['coupling_gap'] = kw.pop('gap')
        w = I.pos('wavelength', 0.5, 3.0)
        p = Pairs(I, sign='++', order=[1, 0])
        with eigenpairs(I, p):
            lib = ModeLibrary.from_block_design((n[0] * d, n[1] * d), d, wg, num_modes=2, wavelength=w, **kw)
        I.true(tuple(lib.solver.shape3) == tuple(g.shape3) and len(p.calls) == 1 and p.calls[0]['k'] == 2 and lib.m == 2, 'grid and number of modes')
        I.eq(lib.solver.k0 * w, 2 * np.pi, 'wavelength')
        I.eq(lib.solver.spacing, g.spacing, 'spacing')
        I.eq(lib.betas[0] ** 2, p.calls[0]['vals'][1], 'modes')
        for x in (lib.eps, lib.solver.eps):
            I.eq(x, np.array(ref, dtype=object if I.sym else float), 'cross-section of the library')
        return
    r = g.block_design(wg, **kw)
    I.true(r is g and g.eps.shape == n, 'chaining')
    I.eq(g.eps, np.array(ref, dtype=object if I.sym else float), 'cross-section of the design')


def cases(tier):
    cs = [Case(align)]
    cs += [Case(pixels, shape=s, spacing=sp, axis=a) for s, sp, a in (((5, 3), 1.0, 0), ((3, 4), 0.25, 1), ((4, 4), 0.1, 0))]
    cs += [Case(pixels, shape=(4, 3), spacing=0.5, axis=0, fixed=f) for f in ((-1.0, 2.0), (2.0, 4.0), (1.0, 1.0))]
    cs += [Case(regions, shape=(5, 4), boxes=b, single=s) for b, s in ((((1, 1, 2, 2),), True), (((1, 1, 2, 2), (2, 2, 2, 2)), False), (((0, 0, 5, 1), (0, 3, 5, 1), (1, 0, 1, 4)), False), (((1, 1, 2, 2),), False), (((-1, 2, 3, 5),), True), (((4, 3, 3, 3), (-2, -2, 3, 3)), False))]
    B = dict(block=(2, 2), sep=1)
    cs += [Case(blocks, kind=k) for k in ({}, dict(sub=3), dict(sub=3, wg_height=4), dict(sub=2, gap=2, wg_height=3), dict(gap=4), dict(sub=2, rib=1, wg_height=2), dict(rib=3), dict(rib=2, wg_height=3, gap=2),
                                          dict(sub=3, wg_height=3, **B), dict(sub=3, wg_height=3, vertical=True, **B), dict(sub=2, gap=2, wg_height=2, block=(2, 4), sep=(0, 1)), dict(sub=2, gap=2, wg_height=2, vertical=True, block=(4, 4), sep=(1, 2)),
                                          dict(block=(2, 2), sep=(1, 2)))]
    cs += [Case(blocks, library=True, kind=k) for k in ({}, dict(sub=3, wg_height=4), dict(sub=2, rib=1, gap=2, wg_height=3), dict(sub=2, gap=2, wg_height=2, block=(2, 4), sep=(0, 1)), dict(sub=2, gap=2, wg_height=2, vertical=True, block=(4, 4), sep=(1, 2)))]
    if tier == 'thorough':
        cs += [Case(pixels, shape=(n, 3), spacing=sp, axis=0) for n in (8, 10) for sp in (0.3, 0.05)]
        cs += [Case(regions, shape=(6, 6), boxes=tuple((x, y, 3, 2) for x in range(-2, 6, 3) for y in range(-1, 6, s))) for s in (2, 3)]
        cs += [Case(blocks, kind=dict(sub=u, gap=q, wg_height=u, vertical=v, block=(2, 2), sep=(a, b))) for u in (1, 3) for q in (0, 2) for v in (False, True) for a in (0, 1) for b in (0, 2)]
    return cs
