"""Small grids with symbolic spacing, permittivity and Bloch phase, and the finite differences they stand for."""
import numpy as np


def spacings(I, shape, iso=False):
    if iso:
        s = I.pos('d', 0.2, 2.0)
        return tuple(s for _ in shape)
    return tuple(I.pos(f'd{a}', 0.2, 2.0) for a in range(len(shape)))


def sizes(sp, shape):
    return tuple(s * n for s, n in zip(sp, shape))


def phases(I, shape, bloch):
    if not isinstance(bloch, str):
        return tuple(I.angle(f'q{a}') if bloch else 0.0 for a in range(len(shape)))
    # phases other than 0 along the named axes only (the code has a separate branch without phases)
    ph = tuple(I.angle(f'q{a}') if 'xyz'[a] in bloch else 0.0 for a in range(len(shape)))
    for a in range(len(shape)):
        if 'xyz'[a] in bloch:
            I.assume(I.np.real(I.cis(ph[a])) < 1 - 1e-9)
    return ph


def shape3(shape):
    return tuple(shape) + (1,) * (3 - len(shape))


def eps_of(I, shape, cplx=False):
    """any permittivity on the grid"""
    if cplx:
        return I.cplxs('eps', *shape) + 3
    return I.poss('eps', *shape, lo=0.5, hi=12.0)


def cis(I, phase):
    return I.cis(phase)


def fdiff(I, f, a, n3, w, ph=None):
    """(f[i+1] - f[i]) / w, the element beyond the end being the first one times exp(i phase); one-cell axes have no derivative"""
    if n3[a] == 1:
        return f * 0
    g = np.roll(f, -1, axis=a)
    if ph is not None:
        last = tuple(slice(-1, None) if x == a else slice(None) for x in range(f.ndim))
        g[last] = g[last] * I.cis(ph)
    return (g - f) / w


def bdiff(I, f, a, n3, w, ph=None):
    if n3[a] == 1:
        return f * 0
    g = np.roll(f, 1, axis=a)
    if ph is not None:
        first = tuple(slice(0, 1) if x == a else slice(None) for x in range(f.ndim))
        g[first] = g[first] * I.cis(-ph)
    return (f - g) / w


def curl(I, d, f):
    """curl of the vector field f (3, x, y, z) with d(component, axis) the derivative"""
    return I.np.stack([d(f[2], 1) - d(f[1], 2), d(f[0], 2) - d(f[2], 0), d(f[1], 0) - d(f[0], 1)])


def ops(I, n3, sp3, ph3=None):
    ph3 = ph3 or (None, None, None)
    F = lambda f, a: fdiff(I, f, a, n3, sp3[a], ph3[a])
    B = lambda f, a: bdiff(I, f, a, n3, sp3[a], ph3[a])
    return F, B
