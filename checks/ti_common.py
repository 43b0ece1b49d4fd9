"""toy equations driving the real time integrators with symbolic states, coefficients, forcings and time steps"""
from symx.harness import *
from symx.core import *
from symx.symfd import SymFD
from types import SimpleNamespace
from fractions import Fraction as Fr
import firedrake as fd
from firedrake import dx, inner, split
from thetis import timeintegrator as ti, rungekutta as rk, implicitexplicit as ie, equation as eqn, shallowwater_eq as sw

LU = {'ksp_type': 'preonly', 'pc_type': 'lu', 'snes_rtol': 1e-13, 'snes_atol': 1e-14, 'snes_max_it': 60, 'mat_type': 'aij',
      'snes_linesearch_type': 'basic'}
MODS = (ti, rk, ie)
_mesh = []


def mesh():
    if not _mesh:
        m = fd.UnitSquareMesh(1, 1)
        m.boundary_len = {k: fd.Constant(1.0) for k in (1, 2, 3, 4)}
        _mesh.append(m)
    return _mesh[0]


def opts(theta=0.5, semi=False, picard=2, params=None):
    p = params or LU
    return SimpleNamespace(implicitness_theta=theta, use_semi_implicit_linearization=semi, solver_parameters=dict(p),
                           solver_parameters_pressure=dict(p), solver_parameters_momentum=dict(p), ad_block_tag=None,
                           picard_iterations=picard)


# ---- scalar equation  u' = a u + b u + q u^2 + s + g, each coefficient in a term of its own ------------------------------
class LinImplicit(eqn.Term):
    def residual(self, u, uo, f, fo, bnd):
        return f['a']*u*self.test*dx


class LinExplicit(eqn.Term):
    def residual(self, u, uo, f, fo, bnd):
        return f['b']*u*self.test*dx


class Quad(eqn.Term):
    def residual(self, u, uo, f, fo, bnd):
        return fo['q']*uo*u*self.test*dx


class Source(eqn.Term):
    def residual(self, u, uo, f, fo, bnd):
        return f['s']*self.test*dx


class Boundary(eqn.Term):
    def residual(self, u, uo, f, fo, bnd):
        return bnd[1]['g']*self.test*dx


class Toy(eqn.Equation):
    def __init__(self, V, quad=None, a='implicit', b='explicit'):
        super().__init__(V)
        self.add_term(LinImplicit(V), a)
        self.add_term(LinExplicit(V), b)
        if quad:
            self.add_term(Quad(V), quad)
        self.add_term(Source(V), 'source')
        self.add_term(Boundary(V), 'explicit')


class System:
    """solution, fields and the symbolic right-hand side of the toy equation"""

    def __init__(self, h, S, quad=None, **kw):
        self.h, self.S, self.quad = h, S, quad
        V = fd.FunctionSpace(mesh(), 'DG', 0)
        self.u = fd.Function(V, name='u')
        self.eq = Toy(V, quad, **kw)
        self.f = {k: fd.Function(V, name=k) for k in 'absq'}
        self.gc = fd.Constant(0.0)
        self.v = {k: S.symbolic(self.f[k], k, lo=-2, hi=2) for k in 'abs'}
        self.v['q'] = S.symbolic(self.f['q'], 'q', lo=-2, hi=2) if quad else 0
        if not quad:
            S.set(self.f['q'], [0])
        self.g = S.symbolic(self.gc, 'g', lo=-2, hi=2)
        self.u0 = S.symbolic(self.u, 'u', lo=-2, hi=2)
        self.bnd = {1: {'g': self.gc}}
        self.s = self.v['s']
        self.times = []
        self.forced = [self.s]
        self.evals = []

    def forcing(self, t):
        """update_forcings: an arbitrary new value at every call"""
        k = len(self.times)
        self.times.append(t)
        self.s = self.h.real(f'sforced{k}', lo=-2, hi=2)
        self.forced.append(self.s)
        self.S.set(self.f['s'], [self.s])

    def rhs(self, u, ul, s, part='all'):
        """documented right-hand side; ul is the value the nonlinear coefficient is linearised about"""
        v = self.v
        if part == 'implicit':
            return v['a']*u
        if part == 'explicit':
            return v['b']*u + s + self.g + v['q']*ul*u
        return v['a']*u + v['b']*u + v['q']*ul*u + s + self.g

    def value(self):
        r = self.S.get(self.u)
        return r[0]


def fx(h, x):
    """tableau entry / exact rational as a number of the current mode"""
    if h.symbolic:
        return Fr(x) if isinstance(x, (Fr, int)) else frac(float(x))
    return float(x)


def step_dt(h, name):
    return h.real(name, gt=0, hi=Fr(1, 10))


def tableau(cls):
    f = lambda x: [f(q) for q in x] if hasattr(x, '__len__') else (Fr(x) if isinstance(x, int) else frac(float(x)))
    return f(cls.a), f(cls.b), f(cls.c)
