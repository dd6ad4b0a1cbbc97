"""Programming: the decomposition of a unitary yields a mesh whose matrix is that unitary."""
import itertools
from symx.harness import Case
from .meshlib import unitary


def rect_order(n):
    """factor order for which the Clements elimination meets one rotation at a time"""
    left, right = [], []
    for i in range(n - 1):
        for j in range(i + 1):
            if i % 2:
                left.append((n + j - i - 2, n + j - i - 1))
            else:
                right.append((i - j, i - j + 1))
    return left + ['D'] + right[::-1]


def rect(I, n, degenerate=False):
    from simphox.circuit import rectangular
    u = unitary(I, n, rect_order(n), degenerate)
    mesh = rectangular(u)
    I.eq(mesh.matrix(), u, 'programmed matrix equals the unitary')


TRI = {2: [(0, 1), 'D'], 3: [(0, 1), 'D', (1, 2), (0, 1)], }
BAL = {2: [(0, 1), 'D'], 3: [(0, 1), 'D', (0, 2), (1, 2)], }


def casc(I, n, balanced, style='top', degenerate=False):
    from simphox.circuit import triangular, tree_cascade
    u = unitary(I, n, (BAL if balanced else TRI)[n], degenerate)
    mesh = (tree_cascade if balanced else triangular)(u, phase_style=style)
    I.eq(mesh.matrix(), u, 'programmed matrix equals the unitary')


def cases(tier):
    cs = []
    for n in (2, 3, 4):
        cs.append(Case(rect, n=n, degenerate=n == 2))
    for n in (2, 3):
        for b in (True, False):
            for st in ('top', 'bottom', 'differential'):
                cs.append(Case(casc, n=n, balanced=b, style=st, degenerate=n==2))
    # exactly vanishing or unit factors (b: bar, c: cross) mixed with generic ones
    kinds = [''.join(k) for k in itertools.product('bcg', repeat=3)]
    for k in kinds:
        if k != 'gbg':      # two rotations of the same pair are one: covered by 'gbb'
            cs.append(Case(rect, n=3, degenerate=k))
    for b in (True, False):
        for k in kinds:
            if tier == 'thorough' or 'g' not in k:
                cs.append(Case(casc, n=3, balanced=b, style='top', degenerate=k))
    for k in (('bbbbbb', 'cbbbbb', 'bcbbcb', 'ccbbcc', 'cccccc', 'bbcbbb', 'bbbcbb', 'cbcbcb') if tier == 'quick' else
              [''.join(k) for k in itertools.product('bc', repeat=6)]):
        cs.append(Case(rect, n=4, degenerate=k))
    return cs
