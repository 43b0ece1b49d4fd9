"""Weak form -> strong form at a point.

For an integrand I(w) that is linear in (w, grad w):  I(w) = A.w + B:grad(w).  Integration by parts gives the strong
residual A - div B plus the boundary flux B.n .w ; both are UFL expressions derived from the real form.
"""
import numpy as np
import ufl
import firedrake as fd
from ufl.algorithms.apply_algebra_lowering import apply_algebra_lowering
from ufl.algorithms.apply_derivatives import apply_derivatives


def _unit(size, c, f=1):
    v = [0]*size
    v[c] = f
    return ufl.as_vector([ufl.as_ufl(q) for q in v])


def cell_integrand(form):
    g = 0
    if form is None or not hasattr(form, 'integrals'):
        return None
    for it in form.integrals():
        if it.integral_type() == 'cell' and it.subdomain_id() in ('everywhere', 'otherwise'):
            g = g + it.integrand()
    return g if not (isinstance(g, int) and g == 0) else None


def _direct(r, v, g):
    """replace test -> v and grad(test) -> g, written out so that no product rule is left in the expression"""
    pass


def strong_and_flux(form, test, x, gdim, variable_test=None):
    """-> list over components c of (strong_c, [B_0c, B_1c, ...]) as UFL"""
    size = int(np.prod(test.ufl_shape)) if test.ufl_shape else 1
    g = cell_integrand(form)
    out = []
    for c in range(size):
        if g is None:
            out.append((ufl.as_ufl(0), [ufl.as_ufl(0)]*gdim))
            continue

        def sub(f):
            e = _unit(size, c, f) if test.ufl_shape else ufl.as_ufl(f)
            return ufl.replace(g, {test: e})
        A = sub(1)
        B = []
        for j in range(gdim):
            B.append(sub(x[j]) - x[j]*A)
        S = A
        for j in range(gdim):
            if not B[j].ufl_domains() or isinstance(B[j], (ufl.classes.Zero, ufl.classes.ScalarValue)):
                continue        # a number: no divergence
            S = S - fd.Dx(B[j], j)
        out.append((S, B))
    return out
