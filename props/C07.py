"""JAX and NumPy backends of a mesh return the same fields for the same inputs."""
from symx.harness import Case
from .meshlib import *


def same_matrix(I, arch, n, style, back):
    mesh = make(arch, n, style)
    p = sym_params(I, mesh)
    err, loss = sym_errors(I, mesh, n < 4 or arch != 'rect'), sym_losses(I, mesh, n < 4)
    x = I.cplxs('x', mesh.n, 2)
    a = mesh.matrix_fn(back=back)(p, x, err, loss)
    b = mesh.matrix_fn(use_jax=True, back=back)(p, x, err, loss)
    I.eq(b, a, 'matrix: JAX equals NumPy')
    v = I.cplxs('v', mesh.n)
    a = mesh.matrix_fn(back=back)(p, v, err, loss)
    b = mesh.matrix_fn(use_jax=True, back=back)(p, v, err, loss)
    I.eq(b, a, 'vector: JAX equals NumPy')


def same_prop(I, arch, n, style, back, explicit):
    mesh = make(arch, n, style)
    p = sym_params(I, mesh)
    err, loss = sym_errors(I, mesh), sym_losses(I, mesh, n < 4)
    x = I.cplxs('x', mesh.n, 2)
    a = mesh.propagate_matrix_fn(back=back, explicit=explicit)(p, x, err, loss)
    b = mesh.propagate_matrix_fn(back=back, explicit=explicit, use_jax=True)(p, x, err, loss)
    I.eq(b, a, 'propagated fields: JAX equals NumPy')


def defaults(I, arch, n, style):
    """called with the stored parameters only"""
    mesh = make(arch, n, style)
    err, loss = sym_errors(I, mesh), sym_losses(I, mesh)
    mesh = mesh.add_error_mean(err, loss)
    mesh.params = sym_params(I, mesh)
    I.eq(mesh.matrix_fn(use_jax=True)(mesh.params), mesh.matrix(), 'stored parameters: JAX equals NumPy')


def cases(tier):
    cs = []
    for a, n in (ARCHS if tier == 'quick' else ARCHS_DEEP):
        for s in STYLES:
            if n > 3 and s in ('symmetric', 'differential') and tier == 'quick':
                continue
            for back in (False, True):
                cs.append(Case(same_matrix, arch=a, n=n, style=s, back=back))
    for a, n in (('tree', 3), ('chain', 4), ('rect', 3)):
        for s in STYLES:
            for back in (False, True):
                if s in ('top', 'bottom'):
                    cs.append(Case(same_prop, arch=a, n=n, style=s, back=back, explicit=True))
                cs.append(Case(same_prop, arch=a, n=n, style=s, back=back, explicit=False))
    for s in STYLES:
        cs.append(Case(defaults, arch='tree', n=3, style=s))
    return cs
