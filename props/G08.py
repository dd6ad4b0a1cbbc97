"""Optimization runs: costs, updates and records of one or several problems that share parameters."""
from symx.harness import Case
from symx.nd import SA, plain
from .gridlib import *
from .optlib import optimizer

FUNCTIONS = ['opt.OptProblem.__post_init__', 'opt.opt_run']


def num(I, x):
    return (plain(x).view(SA) if hasattr(x, 'view') or not hasattr(x, 'is_const') else x) if I.sym else np.asarray(x)


class Sim:
    """a simulation of 2 x 3 cells: two ports, s-parameters and fields are any linear function of the permittivity"""

    def __init__(self, I, name, shape):
        self.I, self.name, self.shape, self.eps = I, name, shape, None
        self.port = {'a': None, 'b': None}
        self.w = I.reals('w' + name, 2, *shape)

    def get_sim_sparams_fn(self, source, transform_fn=None, *a, **kw):
        self.asked = source

        def fn(rho):
            eps = rho if transform_fn is None else transform_fn(rho)
            return self.sparams(eps), self.fields(eps)
        return fn

    def sparams(self, eps):
        return np.array([(self.w[i] * eps).sum() for i in range(2)], dtype=object if self.I.sym else float)

    def fields(self, eps):
        return eps * self.w[0], eps * self.w[1]

    def decorate(self, sparams, fields):
        e, h = fields
        pad = lambda f: np.stack([f * 0, f * 0 + 1, f * 2])[..., None]
        return ('decorated', self.name, sparams), pad(e), pad(h)


class Bar:
    def __init__(self, it):
        self.it, self.said = it, 0
        Bar.last = self

    def __iter__(self):
        return iter(self.it)

    def set_description(self, s):
        self.said += 1


def run(I, problems, iters=3, bar=False, metric=0, eps=0, field=0, one=False):
    """costs are the average of the costs of all problems at the parameters of each iteration; updates follow them; simulations end with the permittivity of the final parameters; records are those of their own problem"""
    shape = (2, 3)
    p0 = I.reals('p', *shape)
    grads = [I.reals(f'g{i}', *shape) for i in range(iters)]
    step = I.pos('step', 0.01, 2)
    sims, ops, log, seen = [], [], [], []
    scale = {}
    import simphox.opt
    with optimizer(simphox.opt, [conv(I, g) for g in grads], log) as o:
        for k, kind in enumerate(problems):
            a = scale[k] = I.real(f'a{k}', 0.5, 2)
            T = None if 'I' in kind else (lambda r, a=a: r * a)
            sim = None if 'N' in kind else Sim(I, f's{k}', shape)
            src = None if 'N' in kind or 'U' in kind else f'port{k}'
            c = I.reals(f'c{k}', 2)
            if src is not None:
                cost = lambda sf, c=c: (c[0] * sf[0][0] + c[1] * sf[0][1] * sf[0][0], sf)
            else:
                cost = lambda e, c=c: (c[0] * e[0, 0] + c[1] * e[1, 2] * e[0, 1], ('aux', e))
            m = (lambda sp, k=k: seen.append((k, sp)) or {'x': sp[2][0], 'y': sp[2][1] * 2}) if metric else None
            ops.append(o.OptProblem(T, cost, sim, src, m))
            sims.append(sim)
        rec = o.opt_run(ops[0] if one else ops, conv(I, p0), iters, pbar=Bar if bar else None, step_size=step, metric_interval=metric, eps_interval=eps, field_interval=field)
    # parameters of each iteration
    ps = [p0]
    for i in range(iters):
        ps.append(ps[-1] - step * (i + 1) * grads[i])

    def T(k, p):
        return p if 'I' in problems[k] else p * scale[k]

    def cost(k, p):
        e = T(k, p)
        c = I.reals(f'c{k}', 2)
        if ops[k].source is None:
            return c[0] * e[0, 0] + c[1] * e[1, 2] * e[0, 1]
        s = sims[k].sparams(e)
        return c[0] * s[0] + c[1] * s[1] * s[0]
    n = len(problems)
    I.true(len(rec.costs) == iters, 'a cost for each iteration')
    for i in range(iters):
        v = num(I, rec.costs[i])
        I.eq(v.ravel()[0] if hasattr(v, 'ravel') else v, sum(cost(k, ps[i]) for k in range(n)) / n, 'average cost of the problems')
    I.eq(num(I, rec.params), ps[-1], 'parameters after the last update')
    for k in range(n):
        if sims[k] is not None:
            I.eq(num(I, sims[k].eps), T(k, ps[-1]), 'permittivity of the simulation after the run')
            if ops[k].source is not None:
                I.true(sims[k].asked == f'port{k}', 'source of the problem')
    if bar:
        I.true(Bar.last.said == iters, 'progress is shown')
    active = [k for k in range(n) if ops[k].source is not None]
    names = [sims[k].name for k in active]

    def recorded(x, every, label):
        it = list(range(0, iters, every))
        I.true(list(x.coords['name'].values) == names and list(x.coords['iteration'].values) == it, 'iterations and problems of the record')
        return it
    if eps:
        it = recorded(rec.eps, eps, 'eps')
        for j, k in enumerate(active):
            for q, i in enumerate(it):
                I.eq(num(I, rec.eps.values[j, q]), T(k, ps[i + 1]), 'permittivity after the iteration')
    if field:
        it = recorded(rec.fields, field, 'fields')
        for j, k in enumerate(active):
            for q, i in enumerate(it):
                I.eq(num(I, rec.fields.values[j, q]), sims[k].fields(T(k, ps[i]))[1] * 2, 'field of the iteration')
    if metric:
        it = recorded(rec.metrics, metric, 'metrics')
        I.true(list(rec.metrics.coords['metric'].values) == ['x', 'y'], 'names of the metrics')
        for j, k in enumerate(active):
            for q, i in enumerate(it):
                s = sims[k].sparams(T(k, ps[i]))
                I.eq(num(I, rec.metrics.values[j, :, q]), np.array([s[0], 2 * s[1]], dtype=object if I.sym else float), 'metrics of the iteration')
        I.true([k for k, _ in seen] == active * len(it), 'metrics are those of the problem')


def conv(I, x):
    return I.jarr(x) if I.sym else x


def cases(tier):
    S, SI, N, U = 'S', 'SI', 'N', 'U'
    cs = [Case(run, problems=p, bar=b) for p, b in (((S,), False), ((S, S), True), ((SI, S), False), ((N, S), False), ((S, N, SI), False), ((N,), True), ((U, S), False), (('NI', S), False))]
    cs += [Case(run, problems=(S,), one=True)]
    cs += [Case(run, problems=p, metric=m, eps=e, field=f, iters=4) for p in ((S,), (S, SI), (N, S), (S, N, S), (U, S)) for m, e, f in ((1, 1, 1), (2, 3, 2), (3, 0, 0), (0, 2, 0))]
    if tier == 'thorough':
        cs += [Case(run, problems=p, metric=m, eps=e, field=f, iters=i) for p in ((S, S, S), (N, N, S, SI), (SI, U, N, S)) for m, e, f in ((1, 1, 1), (2, 3, 4), (4, 2, 3)) for i in (1, 2, 5)]
    return cs
