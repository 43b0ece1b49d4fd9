"""real 2D shallow water equations on a two-cell mesh"""
import firedrake as fd
import thetis
from thetis import shallowwater_eq, options as topt, utility
from thetis.utility import DepthExpression
from thetis.physical_constants import physical_constants
from symx import *
from symx.point import Point

FAMILIES = ('dg-dg', 'rt-dg', 'dg-cg', 'bdm-dg')
BND_COMBOS = (('elev',), ('uv',), ('un',), ('flux',), ('elev', 'uv'), ('elev', 'un'), ('elev', 'flux'))
_mesh = {}
ENCODED = ['shallowwater_eq.ShallowWaterEquations.residual/mass_term', 'shallowwater_eq.FreeSurfaceEquation',
           'shallowwater_eq.ModeSplit2DEquations', 'shallowwater_eq.ShallowWaterMomentumEquation',
           'shallowwater_eq.*Term.residual', 'shallowwater_eq.ShallowWaterTerm.get_bnd_functions/impose_dynamic_bnd',
           'utility.DepthExpression', 'equation.Equation.residual/select_terms']


def mesh2d():
    if 'm' not in _mesh:
        m = fd.UnitSquareMesh(1, 1)
        m.boundary_len = thetis.utility.compute_boundary_length(m)
        _mesh['m'] = m
    return _mesh['m']


class Swe:
    """everything the 2D equation classes need, for one option set"""

    def __init__(self, family="dg-dg", nonlinear=True, wd=False, eqclass="full", deg=1, **opts):
        m = self.mesh = mesh2d()
        k = self.deg = deg
        self.P1 = fd.FunctionSpace(m, 'CG', k)
        self.P1DG = fd.FunctionSpace(m, 'DG', k)
        self.P1v = fd.VectorFunctionSpace(m, 'CG', k)
        self.P1DGv = fd.VectorFunctionSpace(m, 'DG', k)
        f = family
        if f == 'dg-dg':
            U, H = fd.VectorFunctionSpace(m, 'DG', k, name='U_2d'), fd.FunctionSpace(m, 'DG', k, name='H_2d')
        elif f == 'rt-dg':
            U, H = fd.FunctionSpace(m, 'RT', k + 1, name='U_2d'), fd.FunctionSpace(m, 'DG', k, name='H_2d')
        elif f == 'bdm-dg':
            U, H = fd.FunctionSpace(m, 'BDM', k + 1, name='U_2d'), fd.FunctionSpace(m, 'DG', k, name='H_2d')
        elif f == 'dg-cg':
            U, H = fd.VectorFunctionSpace(m, 'DG', k, name='U_2d'), fd.FunctionSpace(m, 'CG', k + 1, name='H_2d')
        elif f == 'cg-cg':
            U, H = fd.VectorFunctionSpace(m, 'CG', k + 1, name='U_2d'), fd.FunctionSpace(m, 'CG', k, name='H_2d')
        self.V = fd.MixedFunctionSpace([U, H])
        self.U, self.H = U, H
        self.family = f
        self.nonlinear, self.wd = nonlinear, wd
        self.bath = fd.Function(self.P1, name='bath')
        self.options = topt.ModelOptions2d()
        if f != 'cg-cg':
            self.options.element_family = f
        self.options.use_nonlinear_equations = nonlinear
        self.options.use_wetting_and_drying = wd
        for k, v in opts.items():
            setattr(self.options, k, v)
        self.wd_alpha = fd.Constant(0.5)
        self.depth = DepthExpression(self.bath, use_nonlinear_equations=nonlinear, use_wetting_and_drying=wd,
                                     wetting_and_drying_alpha=self.wd_alpha)
        self.sol = fd.Function(self.V, name='sol')
        self.old = fd.Function(self.V, name='old')
        self.w = fd.Function(self.V, name='w')
        self.uv, self.eta = self.sol.subfunctions
        self.uv_old, self.eta_old = self.old.subfunctions
        self.wu, self.we = self.w.subfunctions
        self.lf = fd.Constant(1.0)
        self.base_fields = {'lax_friedrichs_velocity_scaling_factor': self.lf}
        self.fields = dict(self.base_fields)
        self.bnd = {}
        self.eqclass = eqclass
        self.opt_fields = {}
        S, Vv = self.P1, self.P1v
        for n, sp in (('coriolis', S), ('wind_stress', Vv), ('atmospheric_pressure', S),
                      ('manning_drag_coefficient', S), ('viscosity_h', S), ('linear_drag_coefficient', S),
                      ('quadratic_drag_coefficient', S), ('nikuradse_bed_roughness', S), ('momentum_source', Vv),
                      ('volume_source', S), ('bottom_drag', S), ('uv_bottom', self.P1DGv)):
            self.opt_fields[n] = fd.Function(sp, name=n)
        if eqclass == 'full':
            self.eq = shallowwater_eq.ShallowWaterEquations(self.V, self.depth, self.options)
            self.test = fd.TestFunction(self.V)
        elif eqclass == 'modesplit':
            self.eq = shallowwater_eq.ModeSplit2DEquations(self.V, self.depth, self.options)
            self.test = fd.TestFunction(self.V)
        elif eqclass == 'freesurf':
            t = fd.TestFunction(H)
            self.eq = shallowwater_eq.FreeSurfaceEquation(t, H, U, self.depth, self.options)
            self.test = t
        elif eqclass == 'momentum':
            t = fd.TestFunction(U)
            self.eq = shallowwater_eq.ShallowWaterMomentumEquation(t, U, H, self.depth, self.options)
            self.test = t

    def use(self, *names):
        self.fields.update({n: self.opt_fields[n] for n in names})
        return self

    def residual(self, label='all', same=False):
        if same:
            old, self.old = self.old, self.sol
            uo, eo = self.uv_old, self.eta_old
            self.uv_old, self.eta_old = self.uv, self.eta
            try:
                return self.residual(label)
            finally:
                self.old, self.uv_old, self.eta_old = old, uo, eo
        if self.eqclass in ('full', 'modesplit'):
            return self.eq.residual(label, self.sol, self.old, self.fields, self.fields, self.bnd)
        if self.eqclass == 'freesurf':
            f = dict(self.fields, uv=self.uv)
            fo = dict(self.fields, uv=self.uv_old)
            return self.eq.residual(label, self.eta, self.eta_old, f, fo, self.bnd)
        f = dict(self.fields, eta=self.eta)
        fo = dict(self.fields, eta=self.eta_old)
        return self.eq.residual(label, self.uv, self.uv_old, f, fo, self.bnd)

    def _sub(self, F):
        if not hasattr(F, 'integrals'):
            return F
        w = {'full': self.w, 'modesplit': self.w, 'freesurf': self.we, 'momentum': self.wu}[self.eqclass]
        return fd.replace(F, {self.test: w})

    def form(self, label='all'):
        """residual with the test function replaced by the coefficient w"""
        return self._sub(self.residual(label))

    def term(self, name):
        """residual of one term of the equation (by its registered name)"""
        t = self.eq.terms[name]
        if self.eqclass in ('full', 'modesplit'):
            uv, eta = fd.split(self.sol)
            uvo, etao = fd.split(self.old)
        else:
            uv, eta, uvo, etao = self.uv, self.eta, self.uv_old, self.eta_old
        return self._sub(t.residual(uv, eta, uvo, etao, self.fields, self.fields, self.bnd))

    def mass(self, sol=None):
        if self.eqclass in ('full', 'modesplit'):
            return self._sub(self.eq.mass_term(self.sol if sol is None else sol))
        if self.eqclass == 'freesurf':
            return self._sub(self.eq.mass_term(self.eta if sol is None else sol.subfunctions[1]))
        return self._sub(self.eq.mass_term(self.uv if sol is None else sol.subfunctions[0]))

    def point(self, h, kind, subdomain=None):
        p = Point(h, self.mesh, kind, subdomain)
        for f, n in ((self.sol, 'sol'), (self.old, 'old'), (self.w, 'w'), (self.bath, 'bath')):
            p.coeff(f, n)
        for n, f in self.fields.items():
            if isinstance(f, fd.Function):
                p.coeff(f, n)
        return p


_cache = {}


def swe(**kw):
    k = tuple(sorted(kw.items()))
    if k not in _cache:
        _cache[k] = Swe(**kw)
    s = _cache[k]
    s.fields, s.bnd = dict(s.base_fields), {}
    return s


def bnd_functions(s, p, tags, bid=1, prefix='bc'):
    """boundary dictionary with arbitrary external data; returns (dict, values)"""
    out, vals = {}, {}
    for t in tags:
        if t == 'uv':
            c = fd.Constant((0.0, 0.0))
            vals[t] = p.constant(c, f'{prefix}.uv', lo=-1000, hi=1000)
        else:
            c = fd.Constant(0.0)
            vals[t] = p.constant(c, f'{prefix}.{t}', lo=-10000, hi=10000)
        out[t] = c
    s.bnd = {bid: out}
    return vals


def positive_depth(h, s, p, lo=0.01):
    """regime of the equations without wetting and drying: the water column is not empty"""
    for sd in p.sides:
        b = p.value(s.bath, sd)
        if not s.nonlinear:
            h.assume(b >= lo)
        elif not s.wd:
            h.assume(b + p.value(s.eta, sd) >= lo)
            h.assume(b + p.value(s.eta_old, sd) >= lo)


def depth_ref(s, p, eta, side=None, alpha=None):
    """documented total depth, from the values at the point"""
    b = p.value(s.bath, side)
    if not s.nonlinear:
        return b
    H = b + eta
    if s.wd:
        return H + (ssqrt(H*H + alpha*alpha) - H)/2
    return H


def ssqrt(x):
    import math
    return sym_sqrt(x) if is_sym(x) else math.sqrt(x)
