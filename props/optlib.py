"""Optimization code run with any gradients: the optimizer and differentiation are stand-ins."""
import contextlib


class Instead:
    """a module with some of its members replaced"""

    def __init__(self, of, **new):
        self._of = of
        self.__dict__.update(new)

    def __getattr__(self, k):
        return getattr(self._of, k)


def after(p, rate, g):
    return tuple(after(x, rate, y) for x, y in zip(p, g)) if isinstance(p, (tuple, list)) else p - rate * g


@contextlib.contextmanager
def optimizer(o, grads, log):
    """the optimizer and differentiation are replaced, under whatever name the module `o` knows them, by any rule that depends on
    iteration, gradient and state; the cost function itself runs"""
    import jax
    import jax.example_libraries as libs
    from symx import jx

    def adam(step_size, *a, **k):
        log.append(('adam', step_size))
        return (lambda p: (p, 0)), (lambda i, g, s: (after(s[0], step_size * (i + 1), g), s[1] + 1)), (lambda s: s[0])

    def value_and_grad(f, argnums=0, has_aux=False, **kw):
        def call(p, *a, **k):
            n = sum(1 for e in log if e[0] == 'grad')
            log.append(('grad', p))
            return f(p, *a, **k), grads[n]
        return call

    def grad(f, argnums=0, has_aux=False, **kw):
        def call(*a, **k):
            v, g = value_and_grad(f)(*a, **k)
            return (g, v[1]) if has_aux else g
        return call

    def jit(f=None, **kw):
        return f if f is not None else (lambda g: g)

    same = lambda x: x
    optimizers = Instead(libs.optimizers, adam=adam)
    new = {}
    for real in (jax, jx.JAX):
        lax = Instead(real.lax, stop_gradient=same)
        new[id(real.lax)] = lax
        new[id(real)] = Instead(real, value_and_grad=value_and_grad, grad=grad, jit=jit, lax=lax, numpy=o.jnp if hasattr(o, 'jnp') else real.numpy,
                                example_libraries=Instead(libs, optimizers=optimizers))
        for k, f in dict(value_and_grad=value_and_grad, grad=grad, jit=jit).items():
            new[id(getattr(real, k))] = f
    # the facade has one stand-in for all of differentiation: the name tells which one is meant
    new.pop(id(jx.JAX.grad), None)
    new.update({id(jax.lax.stop_gradient): same, id(jx.LAX.stop_gradient): same, id(libs.optimizers.adam): adam, id(libs.optimizers): optimizers,
                id(libs): Instead(libs, optimizers=optimizers)})
    saved = {}
    for k, v in list(vars(o).items()):
        w = new.get(id(v))
        if v is jx.JAX.grad:
            w = dict(value_and_grad=value_and_grad, grad=grad).get(k)
        if w is not None:
            saved[k] = v
            setattr(o, k, w)
    try:
        yield o
    finally:
        for k, v in saved.items():
            setattr(o, k, v)
