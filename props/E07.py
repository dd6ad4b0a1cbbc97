"""Continuous-wave runs of the FDTD: the mode of the source port oscillates at the frequency of the wavelength, and the measurements are those of
the fields of every step, electric and magnetic at the same time."""
from symx.harness import Case
from symx.nd import SA, plain
from .E06 import np_of, eps_of, shape3, spacings, sizes
from .gridlib import *

FUNCTIONS = ['fdtd.FDTD.run_cw_port', 'fdtd.FDTD.step', 'fdtd.FDTD.zero_state', 'parse.parse_source_port']


class Mode:
    """any profile of electric and magnetic fields in a region"""

    def __init__(self, I, name, region, shape, jax):
        self.I, self.name, self.region, self.shape, self.jax = I, name, region, shape, jax

    def profile(self, mode_idx=0, use_h=False):
        return self.I.cplxs(f'{"h" if use_h else "e"}_{self.name}_{mode_idx}', *self.shape)

    def slice(self, grid):
        return self.region

    def place(self, *a, **k):
        raise NotImplementedError


class Bar:
    seen = 0

    def __init__(self, it):
        self.it = it

    def __iter__(self):
        for x in self.it:
            Bar.seen += 1
            yield x


def run(I, shape, source, steps=2, measure=None, initial=False, jax=False, bar=False):
    """flux of the state before the run, then of each step; every step is the FDTD step with the source at its time"""
    from simphox.fdtd import FDTD
    eps = np.array([1.0, 2.25, 4.0, 12.25])[np.arange(int(np.prod(shape))).reshape(shape) ** 2 % 4]
    g = FDTD(tuple(0.25 * n for n in shape), 0.25, eps=eps, use_jax=jax)
    n3 = g.shape3
    phi = I.angle('phi')
    lam = 2 * np.pi * g.dt / phi  # any wavelength: phi is the phase of one step
    if not I.sym and abs(phi) < 1e-3:
        from symx.harness import BadPoint
        raise BadPoint('static source')
    regions = {'a0': (slice(None), slice(1, 2), slice(0, 2), slice(0, 1)), 'b0': (slice(None), slice(0, 1), slice(1, 3), slice(0, 1))}
    asked = {}
    modes = {p: Mode(I, p, r, (3,) + tuple(s.stop - s.start for s in r[1:]), jax) for p, r in regions.items()}

    def port_modes(excitation=None, profile_size_factor=3, wavelength=None, **k):
        asked['modes'] = list(excitation), profile_size_factor, wavelength
        return {p: modes[p] for p, _ in excitation}

    def amplitude(e, h):  # whatever is measured is measured of these
        return I.np.stack((e, h))

    def get_measure_fn(measure_port=None, wavelength=None, profile_size_factor=3, use_jax=False, tm_2d=True):
        asked['measure'] = measure_port, wavelength, profile_size_factor, use_jax, tm_2d

        def fn(fields):
            e, h = fields
            return amplitude(np_of(I, e), np_of(I, h))
        return fn

    g.port_modes, g.get_measure_fn = port_modes, get_measure_fn
    j = I.jarr if jax and I.sym else lambda x: x
    e, h = (I.cplxs('e', 3, *n3), I.cplxs('h', 3, *n3)) if initial else (np_of(I, f) for f in g.zero_state[:2])
    e0, h0 = np_of(I, e).copy(), np_of(I, h).copy()
    Bar.seen = 0
    kw = dict(initial_state=(j(e), j(h), None, None)) if initial else {}
    kw.update(dict(pbar=Bar) if bar else {})
    kw.update(dict(measure_port=measure, profile_size_factor=4, tm_2d=False) if measure is not None else {})
    flux, state = g.run_cw_port(steps, lam, source, **kw)
    if bar:
        I.true(Bar.seen == steps, 'progress of every step')
    names = [(source, 0)] if isinstance(source, str) else [p if isinstance(p, tuple) else (p, 0) for p in source]
    factor = 4 if measure is not None else 3
    I.true(asked['modes'][0] == names and asked['modes'][1] == factor, 'modes of the source ports')
    I.eq(asked['modes'][2] / lam, 1.0, 'wavelength of the source')
    I.true(asked['measure'][0] == measure and asked['measure'][2:] == (factor, jax, measure is None), 'ports to be measured')
    I.eq(asked['measure'][1] / lam, 1.0, 'wavelength of the measurement')
    I.true(len(flux) == steps + 1, 'a measurement of the first state and of every step')
    I.eq(e, e0, 'first state stays')
    ref = (e0, h0)
    I.eq(flux[0], amplitude(*ref), 'measurement of the first state')
    s = (j(e0), j(h0), None, None)
    for k in range(steps):
        at = I.np.exp(1j * k * phi)
        xs = [(j(modes[p].profile(m) * at), j(modes[p].profile(m, use_h=True) * at), modes[p].region) for p, m in names]
        before = np_of(I, s[1])
        s = g.step(s, xs)
        a = amplitude(np_of(I, s[0]), (before + np_of(I, s[1])) / 2)
        I.eq(flux[k + 1], a, 'measurement of the fields of the step')
    I.eq(np_of(I, state[0]), np_of(I, s[0]), 'electric field after the run')
    I.eq(np_of(I, state[1]), np_of(I, s[1]), 'magnetic field after the run')


def cases(tier):
    cs = [Case(run, shape=(3, 3), source=s, **k) for s in ('a0', [('a0', 1)], [('b0', 0), ('a0', 0)]) for k in (dict(), dict(measure=[('b0', 0)], bar=True), dict(initial=True, steps=3))]
    cs += [Case(run, shape=(3, 3), source='b0', jax=True, initial=i) for i in (False, True)]
    cs += [Case(run, shape=(2, 3, 2), source='a0', steps=2)]
    if tier == 'thorough':
        cs += [Case(run, shape=s, source=[('b0', 1), ('a0', 0)], steps=n, initial=True, jax=x) for s, n in (((4, 4), 5), ((3, 4, 2), 3)) for x in (False, True)]
    return cs
