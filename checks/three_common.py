"""extruded test mesh and helpers shared by the checks of the 3D equations"""
import numpy as np
import firedrake as fd
from thetis.utility import get_functionspace
from symx.point import Point
from symx.consist import strong_and_flux
from swe_common import *
from fractions import Fraction as Fr

_M = []
INNER = ('dS_v', 'dS_h')


def mesh3():
    if not _M:
        m2 = fd.UnitSquareMesh(1, 1)
        m2.boundary_len = {1: 1.25, 2: 0.75, 3: 1.5, 4: 0.5}
        X = m2.coordinates.dat.data      # cells of different size
        X[np.argmax(X.sum(axis=1))] += [0.5, 0.25]
        m = fd.ExtrudedMesh(m2, 2, layer_height=[0.4, 0.6])
        m.boundary_len = m2.boundary_len
        _M.append(m)
    return _M[0]


def space(deg=1, vector=False, fam='DG'):
    m = mesh3()
    return get_functionspace(m, fam, deg, fam, deg, vector=vector)


def left_over(p, F, test, w):
    """what the weak form leaves at a facet for a smooth state: its facet terms plus what integration by parts of the
    cell terms brings there"""
    tot = p.integral(F, {test: w})
    for c, (S, B) in enumerate(strong_and_flux(F, test, fd.SpatialCoordinate(p.mesh), 3)):
        for sd, sg in ((('+', 1), ('-', -1)) if p.interior else ((None, 1),)):
            wc = p.value(w, sd, c)
            for j in range(3):
                tot = tot + sg*wc*p.n[j]*p.expr(B[j], sd)
    return tot


def is_form(F):
    return hasattr(F, 'integrals')
