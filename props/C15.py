"""Decompositions: the cosine-sine decomposition and its inverse, and the singular value network, rebuild the matrix they were given."""
import itertools
from symx import linalg
from symx.harness import Case
from .meshlib import *

FUNCTIONS = ['circuit.matrix.cs', 'circuit.matrix.csinv', 'circuit.matrix.psvd', 'circuit.matrix.bowtie', 'circuit.rectangular.rectangular']


def block(I, name, n, kind='g'):
    """any unitary of up to two rails; 'r': real rotation, 'b'/'c': bar or cross with phases; larger ones permute further rails in"""
    ph = [I.cis(I.angle(f'{name}_d{k}')) if kind != 'r' else lift1(I) for k in range(n)]
    m = diag(I, ph)
    if n == 1 or kind == 'd':
        return m
    c, s = givens_factors(I, name + '_x', kind if kind in 'bc' else 'g')
    y = I.cis(I.angle(name + '_y')) if kind == 'g' else lift1(I)
    m = rot(I, n, 0, 1, c, s, y) @ m
    if n == 3:
        m = I.np.roll(m, 1, axis=0)
    return m


def lift1(I):
    return C.lift(1) if I.sym else 1.0 + 0j


def terms(I, kinds):
    """cosines and sines, sines in descending order"""
    c, s = zip(*[givens_factors(I, f't{k}', kd) for k, kd in enumerate(kinds)])
    for k in range(1, len(s)):
        if s[k - 1] is not s[k]:
            I.assume(s[k] <= s[k - 1])
    return I.arr(list(c)), I.arr(list(s))


def whole(I, m, l0, l1, r0, r1, c, s):
    """the block formula, written out"""
    n = m + l1.shape[0]
    l, r, d = (I.np.zeros((n, n), dtype=complex) for _ in range(3))
    l[:m, :m], l[m:, m:], r[:m, :m], r[m:, m:] = l0, l1, r0, r1
    for k in range(m):
        d[k, k], d[k, k + m], d[k + m, k], d[k + m, k + m] = s[k], c[k], c[k], -s[k]
    if n > 2 * m:
        d[n - 1, n - 1] = 1
    return l @ d @ r


def check_factors(I, n, f):
    from simphox.circuit.matrix import csinv
    m = n // 2
    l0, l1, r0, r1, theta = f
    for nm, x, k in (('l0', l0, m), ('l1', l1, n - m), ('r0', r0, m), ('r1', r1, n - m)):
        I.true(x.shape == (k, k), 'size of ' + nm)
        I.eq(x @ x.conj().T, np.eye(k), nm + ' is unitary')
    I.true(len(theta) == m, 'number of cosine-sine phases')
    for t in theta:
        I.le(0, I.np.cos(t), 'cosines are not negative')
        I.le(0, I.np.sin(t), 'sines are not negative')


def decompose(I, n, kinds, blocks='gggg'):
    from simphox.circuit.matrix import cs, csinv
    m = n // 2
    l0, r0 = block(I, 'l0', m, blocks[0]), block(I, 'r0', m, blocks[1])
    l1, r1 = block(I, 'l1', n - m, blocks[2]), block(I, 'r1', n - m, blocks[3])
    c, s = terms(I, kinds)
    u = whole(I, m, l0, l1, r0, r1, c, s)
    if I.sym:
        linalg.known_svd(I, (l0, s, r0))
    u0 = u.copy()
    f = cs(u)
    I.eq(u, u0, 'the matrix stays')
    check_factors(I, n, f)
    I.eq(csinv(*f), u, 'factors rebuild the unitary')


def inverse(I, n):
    """csinv is the block formula for any blocks and any phases, unitary or not"""
    from simphox.circuit.matrix import csinv
    m = n // 2
    l0, r0, l1, r1 = (I.cplxs(nm, k, k) for nm, k in (('l0', m), ('r0', m), ('l1', n - m), ('r1', n - m)))
    th = I.angles('theta', m)
    I.eq(csinv(l0, l1, r0, r1, th), whole(I, m, l0, l1, r0, r1, I.np.cos(th), I.np.sin(th)), 'block formula')


def fractal(I, n, kinds, blocks='gggg'):
    """the bowtie mesh of a unitary is the unitary"""
    from simphox.circuit.matrix import bowtie
    m = n // 2
    l0, r0 = block(I, 'l0', m, blocks[0]), block(I, 'r0', m, blocks[1])
    l1, r1 = block(I, 'l1', n - m, blocks[2]), block(I, 'r1', n - m, blocks[3])
    c, s = terms(I, kinds)
    u = whole(I, m, l0, l1, r0, r1, c, s)
    if I.sym:
        linalg.known_svd(I, (l0, s, r0))
    u0 = u.copy()
    mesh = bowtie(u)
    I.eq(u, u0, 'the matrix stays')
    I.true(mesh.n == n and mesh.num_nodes == n * (n - 1) // 2, 'number of nodes')
    I.eq(mesh.matrix_fn()(mesh.params, np.eye(n) + 0j, np.zeros((mesh.num_nodes, 2)), np.zeros((mesh.num_nodes, 2))), u, 'the mesh is the unitary')


def singular(I, n, kinds, blocks='gg'):
    """the two meshes with the singular values between them are the matrix"""
    from simphox.circuit import psvd
    from .C01 import rect_order
    l, r = (unitary(I, n, rect_order(n) if k == 'g' else ['D'], 'g' * 9) if k != 'p' else I.np.roll(diag(I, [I.cis(I.angle(f'{nm}{q}')) for q in range(n)]), 1, axis=0)
            for nm, k in zip(('l', 'r'), blocks))
    d = [I.pos(f's{k}') if x == 'g' else 0.0 for k, x in enumerate(kinds)]
    for k in range(1, n):
        I.assume(d[k] <= d[k - 1])
    d = I.arr(d)
    a = (l * d[None, :]) @ r
    if I.sym:
        linalg.known_svd(I, (l, d, r))
    u, sv, v = psvd(a)
    um, vm = u.matrix(), v.matrix()
    I.eq(um @ um.conj().T, np.eye(n), 'left network is lossless')
    I.eq(vm @ vm.conj().T, np.eye(n), 'right network is lossless')
    I.eq(sv, d, 'singular values', tol=1e-4)
    I.eq((um * sv[None, :]) @ vm, a, 'the networks and the singular values are the matrix', tol=1e-4)


def cases(tier):
    cs = []
    for n in (2, 3):
        cs += [Case(decompose, n=n, kinds=k) for k in 'gbc']
    cs += [Case(decompose, n=4, kinds=k, blocks=b) for k in ('gg', 'gb', 'cg', 'cb', 'cc', 'bb') for b in ('gggg', 'cbbc')]
    cs += [Case(decompose, n=5, kinds=k, blocks='rdgr') for k in ('gg', 'cg', 'cb', 'cc')]
    cs += [Case(inverse, n=n) for n in (2, 3, 4, 5, 6)]
    cs += [Case(fractal, n=2, kinds=k) for k in 'gbc'] + [Case(fractal, n=3, kinds=k, blocks=b) for k, b in (('g', 'gggg'), ('b', 'gggg'), ('c', 'ggdd'), ('c', 'ddgd'), ('c', 'gddb'))] + [Case(fractal, n=4, kinds=k, blocks=b) for k, b in (('gg', 'cbbc'), ('gb', 'dddd'), ('gg', 'gggg'), ('gb', 'gggg'), ('cg', 'gggg'), ('cc', 'gbcg'), ('cg', 'bdcb'))] + [Case(fractal, n=5, kinds=k, blocks='rdgr') for k in ('gg', 'cb')]
    cs += [Case(singular, n=2, kinds=k) for k in ('gg', 'gz', 'zz')]
    cs += [Case(singular, n=3, kinds=k, blocks=b) for k, b in (('ggg', 'gd'), ('ggz', 'dg'), ('gzz', 'pg'), ('ggg', 'gp'))]
    if tier == 'thorough':
        cs += [Case(singular, n=3, kinds='ggg', blocks='gg', timeout=600), Case(singular, n=4, kinds='gggz', blocks='dg', timeout=600)]
        cs += [Case(decompose, n=5, kinds=k, blocks=b, timeout=600) for k in ('gg', 'bg', 'gb', 'cg', 'bb') for b in ('gggg', 'ccrg', 'brgg') if k in ('gg', 'gb', 'cg', 'bb')]
    return cs
