"""Labelled results: s-parameters by port, fields by component and position, the magnetic field half a cell later."""
import contextlib

from symx.harness import Case
from .gridlib import *

FUNCTIONS = ['sim.SimGrid.decorate', 'utils.splitter_metrics']


class Labelled:
    """stands for xarray.DataArray (positions are symbolic): data, names of the axes, labels along them"""
    def __init__(self, data, coords=None, dims=None, **kw):
        self.data, self.dims, self.coords = data, list(dims if dims is not None else coords), coords


@contextlib.contextmanager
def recording():
    import simphox.sim as m
    old = m.xr

    class X:
        DataArray = Labelled

        def __getattr__(self, k):
            return getattr(old, k)
    m.xr = X()
    try:
        yield
    finally:
        m.xr = old


def labels(I, shape, names, sparams=True):
    from simphox.sim import SimGrid
    from simphox.grid import Port
    sp = spacings(I, shape)
    g = SimGrid(sizes(sp, shape), sp)
    g.port = {n: Port(1.0, 1.0) for n in names}
    n3 = shape3(shape)
    s = I.cplxs('s', len(names))
    e, h = I.cplxs('e', 3, *n3), I.cplxs('h', 3, *n3)
    with recording():
        ds, de, dh = g.decorate(s, (e, h))
    I.true(list(ds.dims) == ['port'] and list(ds.coords['port']) == list(names), 'ports of the s-parameters')
    I.eq(ds.data, s, 's-parameters')
    for x, f, lab in ((de, e, 'electric'), (dh, h, 'magnetic')):
        I.true(list(x.dims) == ['direction', 'x', 'y', 'z'] and list(x.coords['direction']) == ['x', 'y', 'z'], lab + ' axes and components')
        I.eq(x.data, f, lab + ' field')
    for a in range(3):
        ce, ch = de.coords['xyz'[a]], dh.coords['xyz'[a]]
        I.true(len(ce) == len(ch) == n3[a], 'a position for each cell')
        if n3[a] == 1:
            continue
        for i in range(n3[a]):
            I.eq(ce[i], i * sp[a], 'position of the electric field')
            I.eq(ch[i], (i + 0.5) * sp[a], 'magnetic field half a cell later')


class Powers(dict):
    """s-parameters by port, with the operations of a labelled array the metrics use"""
    def __init__(self, I, d):
        super().__init__(d)
        self.I = I

    def _map(self, f):
        return Powers(self.I, {k: f(v) for k, v in self.items()})

    def __abs__(self):
        return self._map(lambda v: self.I.np.abs(v))

    def __array_ufunc__(self, ufunc, method, *a, **kw):
        return abs(self) if ufunc is np.absolute and method == '__call__' and a[0] is self else NotImplemented

    def __pow__(self, p):
        return self._map(lambda v: v ** p)

    @property
    def loc(self):
        return self

    def sum(self):
        return sum(self.values())


def metrics(I, names):
    from simphox.utils import splitter_metrics
    import xarray as xr
    s = {n: I.cplx(n) for n in names}
    p = {n: I.np.real(v * I.np.conj(v)) for n, v in s.items()}
    I.assume(p['b0'] + p['b1'] > 0.05)
    x = Powers(I, s) if I.sym else xr.DataArray(np.array([s[n] for n in names]), dims=['port'], coords={'port': list(names)})
    m = {k: v if I.sym else float(v) for k, v in splitter_metrics(x).items()}
    out = p['b0'] + p['b1']
    I.eq(m['reflectivity'] * out, p['b0'], 'share of the upper port')
    I.eq(m['transmissivity'] * out, p['b1'], 'share of the lower port')
    I.eq(m['reflection'], p['a0'], 'reflected power')
    I.eq(m['insertion'], sum(p.values()), 'power of all ports')
    I.eq(m['upper'], p['b0'], 'power of the upper port')
    I.eq(m['lower'], p['b1'], 'power of the lower port')


def cases(tier):
    cs = [Case(labels, shape=s, names=n) for s in ((4,), (3, 4), (2, 3, 2), (5, 1)) for n in (('a',), ('b1', 'a0', 'c'))]
    return cs + [Case(metrics, names=n) for n in (('a0', 'b0', 'b1'), ('b1', 'a1', 'b0', 'a0'))]
