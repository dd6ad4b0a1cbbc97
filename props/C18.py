"""Random settings: split ratios are drawn from the distributions that make random trees and grid meshes Haar random."""
import contextlib

from symx.harness import Case
from .meshlib import *

FUNCTIONS = ['ForwardMesh.rand_s', 'ForwardMesh.rand_theta', 'vector._tree', 'rectangular.get_alpha_checkerboard', 'CouplingNode.alpha', 'CouplingNode.beta']


@contextlib.contextmanager
def drawing(I, calls, name='s', limits=None):
    """the inverse of the beta distribution returns arbitrary numbers in [0, 1]; calls collects (a, b, number)"""
    import scipy.special
    import simphox.circuit.forward as m

    def draw(a, b, y):
        a, b = (np.asarray(x, dtype=float).ravel() for x in (a, b))
        x = I.arr([I.real('%s%d' % (name, len(calls) + i), lo=0.0, hi=1.0) for i in range(a.size)])
        calls.extend(zip(a, b, x))
        for p, q in enumerate(x):
            I.assume(q > 1e-3)
            I.assume(q < 1 - 1e-3)
            for lo, hi in [limits[p]] if limits else []:      # within reach of the node of this number
                I.assume(q > lo + 1e-3)
                I.assume(q < hi - 1e-3)
        return x
    olds = m.betaincinv, scipy.special.betaincinv
    m.betaincinv = scipy.special.betaincinv = draw
    try:
        yield
    finally:
        m.betaincinv, scipy.special.betaincinv = olds


def same(I, x, y):
    """whether two numbers are the same for every value of the symbols (a point of them, on the unpatched code)"""
    c = x == y if I.sym else abs(x - y) < 1e-6
    return c is True or (not I.sym and bool(c))


def reach(mesh):
    """node -> (inputs that reach its upper arm, its lower arm, outputs its upper arm reaches, its lower arm)"""
    order, n = mesh_nodes(mesh), mesh.n
    res = {}
    lit = [{i} for i in range(n)]
    for _, t, b, k in order:
        res[k] = [lit[t], lit[b], None, None]
        lit[t] = lit[b] = lit[t] | lit[b]
    for q, (_, t, b, k) in enumerate(order):
        for j, arm in ((2, t), (3, b)):
            out = {arm}
            for _, t2, b2, _ in order[q + 1:]:
                if t2 in out or b2 in out:
                    out |= {t2, b2}
            res[k][j] = out
    return res


def expected(mesh, arch):
    """node -> (weights of the light crossing over and of the light staying): rails above and below whose light a tree collects,
    rails further down and the rail itself over which a linear chain spreads light, (sensitivity index, 1) in a grid"""
    r, n = reach(mesh), mesh.n
    if arch == 'tree':
        return {k: (len(t), len(b)) for k, (t, b, _, _) in r.items()}
    if arch == 'chain':
        return {k: (len(b), len(t)) for k, (_, _, t, b) in r.items()}
    return {k: (len(t | b) + len(o | p) - n - 1, 1) for k, (t, b, o, p) in r.items()}


def imperfect(I, mesh):
    """the same mesh with an error of its own in every coupler; node -> the split ratios it can reach"""
    import copy
    nodes, lim = [copy.deepcopy(n) for n in mesh.nodes], {}
    for n in nodes:
        (cl, sl), (cr, sr) = I.halfangle('l%d' % n.node_id), I.halfangle('r%d' % n.node_id)
        n.bs_error = (I.np.arccos(cl) - I.np.pi / 4, I.np.arccos(cr) - I.np.pi / 4)
        lim[int(n.node_id)] = (cr * sl - sr * cl) ** 2, (cr * sl + sr * cl) ** 2
    return mesh.__class__(nodes, mesh.phase_style), lim


def settings(I, mesh, want, errors=False):
    """each node couples across a number of its own, drawn with the weights of the node"""
    calls, lim = [], None
    m = mesh.num_nodes
    if errors:
        mesh, lim = imperfect(I, mesh)
    with drawing(I, calls, limits=lim):
        th = mesh.rand_theta()
    if len(calls) != m:      # drawn in another way
        return
    I.true(np.shape(th) == (m,), 'a phase for each node')
    used = set()
    for node in mesh.nodes:
        k = int(node.node_id)
        x = I.np.abs(node.mzi_node_matrix(th[k], I.angle('phi'), embed=False)[0, 1]) ** 2
        w0 = tuple(float(q) for q in want[k])
        hit = [(p, (a, b)) for p, (a, b, s) in enumerate(calls) if same(I, x, s)] + \
              [(p, (b, a)) for p, (a, b, s) in enumerate(calls) if same(I, x, 1 - s)]
        hit.sort(key=lambda h: (h[0] in used, h[1] != w0))      # at a point, numbers may coincide
        if not hit:
            I.eq(x, calls[k][2], 'the node couples the number drawn')
            continue
        p, w = hit[0]
        used.add(p)
        I.eq(x, calls[p][2] if w == calls[p][:2] or same(I, x, calls[p][2]) else 1 - calls[p][2], 'the node couples the number drawn')
        I.true(w == w0, 'weights of the number drawn')
    I.true(len(used) == m, 'a number for each node')


def random_settings(I, arch, n, style='top', errors=False):
    mesh = make(arch, n, style)
    settings(I, mesh, expected(mesh, arch), errors)


def cascade(I, n):
    """a cascade draws what its trees draw"""
    from simphox.circuit.vector import tree
    mesh = make('cascade', n, 'top')
    want, k = {}, 0
    for m in range(n, 1, -1):
        t = tree(m)
        want.update({k + int(q): v for q, v in expected(t, 'tree').items()})
        k += m - 1
    settings(I, mesh, want)


def spread(I, arch, n):
    """light of a random tree leaves through one port, and light of the first rail of a random chain leaves through all,
    in shares that are the numbers drawn, each split weighed by its rails"""
    mesh = make(arch, n, 'top')
    calls = []
    with drawing(I, calls):
        th = mesh.rand_theta()
    if len(calls) != mesh.num_nodes:
        return
    u = mesh.matrix_fn(use_jax=False)((th, I.angles('phi', mesh.num_nodes), I.angles('gamma', n)))
    p = I.np.abs(u[n - 1] if arch == 'tree' else u[:, 0]) ** 2
    want = reach(mesh)
    for node in mesh.nodes:
        t, b = want[int(node.node_id)][:2] if arch == 'tree' else want[int(node.node_id)][2:]
        top, all_ = sum(p[j] for j in sorted(t)), sum(p[j] for j in sorted(t | b))
        hit = [c for c in calls if same(I, top, c[2] * all_)] + [(b_, a_, 1 - s) for a_, b_, s in calls if same(I, top, (1 - s) * all_)]
        if not hit:
            I.eq(top, calls[int(node.node_id)][2] * all_, 'share of the rails above')
            continue
        hit.sort(key=lambda h: (h[0], h[1]) != (len(t), len(b)))
        I.eq(top, hit[0][2] * all_, 'share of the rails above')
        I.true((hit[0][0], hit[0][1]) == (len(t), len(b)), 'weights of the share')


def vectors(I, n, normed, cplx):
    """entries have real and imaginary parts that are independent normal numbers of one deviation; of norm one if asked"""
    from simphox.utils import random_vector
    from .C12 import drawing as normal
    from .C19 import Draws
    d = Draws(I, lambda k: I.real('z%d' % k, lo=-2.0, hi=2.0))
    with normal(I, d):
        v = random_vector(n, normed=normed, is_complex=cplx)
    I.true(np.shape(v) == (n,), 'a number for each entry')
    parts = [x for k in range(n) for x in ((v[k].real, v[k].imag) if cplx else (v[k],))]
    if len(d.all) != len(parts):      # drawn in another way
        return
    if normed:
        I.eq(sum(x * x for x in parts), 1, 'norm of the vector')
    for z in d.all:
        I.assume(z * z > 0.01)
    used = set()
    for x in parts:       # proportional to a draw of its own: the ratio to the first part's is that of the draws
        hit = [j for j, z in enumerate(d.all) if same(I, x * x * sum(q * q for q in d.all), z * z * sum(q * q for q in parts))]
        hit.sort(key=lambda j: j in used)
        used.update(hit[:1])
        j = hit[0] if hit else 0
        I.eq(x * x * sum(q * q for q in d.all), d.all[j] * d.all[j] * sum(q * q for q in parts), 'parts share one deviation')
    I.true(len(used) == len(parts), 'a number of its own for each part')
    k = iter(d.all)
    with normal(I, Draws(I, lambda _: -1 * next(k))):
        w = random_vector(n, normed=normed, is_complex=cplx)
    I.eq(w, -1 * v, 'parts have both signs')


def cases(tier):
    k = 2 if tier == 'thorough' else 0
    cs = [Case(random_settings, arch=a, n=n) for a in ('tree', 'chain', 'rect') for n in range(2, 7 + k)] + [Case(random_settings, arch='triangular', n=n) for n in (2, 3, 4)]
    cs += [Case(random_settings, arch=a, n=4, style=s) for a in ('tree', 'rect') for s in ('bottom', 'differential')]
    cs += [Case(random_settings, arch=a, n=n, errors=True) for a, n in (('tree', 2), ('tree', 3), ('rect', 3))]
    cs += [Case(cascade, n=n) for n in range(3, 6 + k)]
    cs += [Case(vectors, n=n, normed=d, cplx=c) for n, c in ((1, True), (3, True), (3, False)) for d in (False, True)]
    return cs + [Case(spread, arch=a, n=n) for a in ('tree', 'chain') for n in range(2, 5 + k)]
