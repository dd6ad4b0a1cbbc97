"""Gaussian sources: a carrier under a Gaussian envelope that starts in time, however its width is given."""
from symx.harness import Case
from .gridlib import *

FUNCTIONS = ['utils.gaussian_fn']


def sq(I, z):
    return I.np.real(z * I.np.conj(z))


def make(I, lab='', by='time', chirp=False, start=None, factor=None):
    """source and its wavelength, peak time, start and chirp; by: which of the two widths is given"""
    from simphox.utils import gaussian_fn
    lam, w = I.pos('lam', 0.5, 3.0), I.pos('w', 0.5, 5.0)
    kw = dict(pulse_width=w) if by == 'time' else dict(fwidth=2 * np.pi / w)
    start = I.real('start' + lab, -5, 5) if start is None else start
    if start is not False:
        kw['start_time'] = start
    else:
        start = 0.0
    if factor is None:
        factor = I.pos('factor', 0.1, 2.0)
        kw['center_time_factor'] = factor
    else:
        factor = 5.0  # the documented default
    if chirp:
        kw['linear_chirp'] = chirp = I.real('chirp', -2, 2)
    return gaussian_fn(lam, **kw), lam, w, start + factor * w, start, chirp


def pulse(I, by, chirp, defaults=False):
    f, lam, w, t0, start, c = make(I, by=by, chirp=chirp, start=False if defaults else None, factor='default' if defaults else None)
    k0 = 2 * np.pi / lam
    d = I.real('d', -2, 2)
    I.assume(t0 + d > start + 1e-3)
    I.eq(f(t0), 1, 'peak')
    g = f(t0 + d)
    a2 = sq(I, g)
    I.eq(a2, I.np.exp(-4 * np.pi / w * d ** 2), 'Gaussian envelope')
    I.eq(g * I.cis(-k0 * d) * (I.cis(-c * d ** 2) if chirp else 1), I.np.sqrt(a2), 'carrier and chirp of the phase')


def starts(I, by, side):
    f, lam, w, t0, start, c = make(I, by=by)
    d = I.pos('d', 1e-3, 3.0)
    if side == 'after':
        I.true(sq(I, f(start + d)) > 0, 'light after the start')
    else:
        I.eq(f(start - d), 0, 'nothing before the start')
        I.eq(f(start), 0, 'nothing at the start')


def widths(I):
    """the widths in time and frequency describe the same pulse, and the start time only delays it"""
    f, g = make(I, 'a', by='time'), make(I, 'b', by='freq')
    d = I.pos('d', 1e-3, 3.0)
    I.eq(f[0](f[4] + d), g[0](g[4] + d), 'same pulse after its start')


def wider(I):
    """twice the frequency width is the square of the envelope"""
    from simphox.utils import gaussian_fn
    lam, w = I.pos('lam', 0.5, 3.0), I.pos('w', 0.5, 20.0)
    f, g = gaussian_fn(lam, fwidth=2 * np.pi / w), gaussian_fn(lam, fwidth=4 * np.pi / w)
    d = I.real('d', -1, 1)
    I.assume(2.5 * w + d > 0.1)
    I.eq(sq(I, g(2.5 * w + d)), sq(I, f(5 * w + d)) ** 2, 'envelope of twice the width')


def refused(I, width):
    """a pulse without a width is refused"""
    from simphox.utils import gaussian_fn
    w = 0 if width == 'none' else -I.pos('w', 0.1, 5.0)
    try:
        gaussian_fn(I.pos('lam', 0.5, 3.0), pulse_width=w)
    except ValueError:
        I.true(True, 'no width is refused')
    else:
        I.true(False, 'no width is refused')


def cases(tier):
    cs = [Case(pulse, by=b, chirp=c) for b in ('time', 'freq') for c in (False, True)]
    cs += [Case(pulse, by=b, chirp=False, defaults=True) for b in ('time', 'freq')]
    cs += [Case(starts, by=b, side=s) for b in ('time', 'freq') for s in ('before', 'after')]
    return cs + [Case(widths), Case(wider), Case(refused, width='none'), Case(refused, width='negative')]
