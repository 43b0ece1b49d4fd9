"""real 2D tracer / sediment / Exner equations on a two-cell mesh"""
import firedrake as fd
import ufl
from thetis import tracer_eq_2d, sediment_eq_2d, exner_eq, options as topt
from thetis.utility import DepthExpression
from swe_common import *
from symx.consist import strong_and_flux

ENCODED = ['tracer_eq_2d.TracerEquation2D', 'tracer_eq_2d.*Term.residual', 'tracer_eq_2d.TracerTerm.get_bnd_functions',
           'utility.DepthExpression.get_total_depth', 'equation.Equation.residual/select_terms/add_term']


class Model:
    """stands for SedimentModel: supplies arbitrary non-negative rates"""

    def __init__(self, P1):
        self.ero = fd.Function(P1, name='erosion')
        self.dep = fd.Function(P1, name='deposition')
        self.equi = fd.Function(P1, name='equilibrium')
        self.qbx, self.qby = fd.Function(P1, name='qbx'), fd.Function(P1, name='qby')
        self.solve_suspended_sediment = self.use_bedload = True
        self.use_sediment_slide = False

    def get_erosion_term(self):
        return self.ero

    def get_deposition_coefficient(self):
        return self.dep

    def get_equilibrium_tracer(self):
        return self.equi

    def get_bedload_term(self, bath):
        return self.qbx, self.qby


class Tr:
    def __init__(self, kind='tracer', conservative=False, family='DG', lf=True, deg=1, supg=False, nonlinear=True, wd=False,
                 uv='dg', labels=('c',)):
        m = self.mesh = mesh2d()
        self.kind, self.conservative = kind, conservative
        self.nonlinear, self.wd = nonlinear, wd
        self.P1 = fd.FunctionSpace(m, 'CG', deg)
        self.Q1 = fd.FunctionSpace(m, family, deg)
        self.nlab = len(labels)
        self.Q = self.Q1 if self.nlab == 1 else fd.MixedFunctionSpace([self.Q1]*self.nlab)
        self.U = fd.VectorFunctionSpace(m, 'DG', deg) if uv == 'dg' else fd.FunctionSpace(m, 'RT', deg + 1)
        self.E = fd.FunctionSpace(m, 'DG', deg)
        self.c, self.cold, self.w = (fd.Function(self.Q, name=n) for n in ('c', 'cold', 'w'))
        self.uv, self.eta = fd.Function(self.U, name='uv'), fd.Function(self.E, name='eta')
        self.bath = fd.Function(self.P1, name='bath')
        self.mu = fd.Function(self.P1, name='mu')
        self.S = fd.Function(self.P1, name='S')
        self.corr = fd.Constant(1.0)
        self.lf = fd.Constant(1.0)
        self.wd_alpha = fd.Constant(0.5)
        self.depth = DepthExpression(self.bath, use_nonlinear_equations=nonlinear, use_wetting_and_drying=wd,
                                     wetting_and_drying_alpha=self.wd_alpha)
        o = self.options = topt.ModelOptions2d()
        o.use_lax_friedrichs_tracer = lf
        o.use_supg_tracer = supg
        self.fields = {'uv_2d': self.uv, 'elev_2d': self.eta, 'tracer_advective_velocity_factor': self.corr,
                       'lax_friedrichs_tracer_scaling_factor': self.lf}
        self.labels = labels
        if kind == 'tracer':
            for l in labels:
                o.add_tracer_2d(l, l, l, use_conservative_form=conservative)
            if supg:
                o.horizontal_velocity_scale = fd.Constant(1.0)
                o.horizontal_diffusivity_scale = fd.Constant(1.0)
            self.eq = tracer_eq_2d.TracerEquation2D(','.join(labels), self.Q, self.depth, o, self.uv)
            self.test = self.eq.test if self.nlab == 1 else fd.TestFunction(self.Q)
            self.tests = [fd.TestFunction(self.Q)] if self.nlab == 1 else fd.TestFunctions(self.Q)
            self.label = labels[0]
        else:
            self.model = Model(self.P1)
            self.eq = sediment_eq_2d.SedimentEquation2D(self.Q, self.depth, o, self.model, conservative=conservative)
            self.test = fd.TestFunction(self.Q)
            self.label = 'sediment_2d'
        self.bnd = {}

    def use(self, *names):
        if 'mu' in names:
            for l in self.labels if self.kind == 'tracer' else [self.label]:
                self.fields[f'diffusivity_h-{l}'] = self.mu
        if 'S' in names:
            for l in self.labels:
                self.fields[f'source-{l}'] = self.S
        return self

    def residual(self, label='all'):
        return self.eq.residual(label, self.c, self.cold, self.fields, self.fields, self.bnd)

    def form(self, label='all'):
        F = self.residual(label)
        return fd.replace(F, {self.test: self.w}) if hasattr(F, 'integrals') else F

    def term(self, name):
        t = [v for k, v in self.eq.terms.items() if name in k][0]
        F = t.residual(self.c, self.cold, self.fields, self.fields, self.bnd)
        return fd.replace(F, {self.test: self.w}) if hasattr(F, 'integrals') else F

    def point(self, h, kind, subdomain=None, corr=True):
        p = Point(h, self.mesh, kind, subdomain)
        for n in ('c', 'cold', 'w', 'uv', 'eta', 'bath', 'mu', 'S'):
            p.coeff(getattr(self, n), n)
        if self.kind != 'tracer':
            for f, n in ((self.model.ero, 'ero'), (self.model.dep, 'dep'), (self.model.equi, 'equi'),
                         (self.model.qbx, 'qbx'), (self.model.qby, 'qby')):
                p.coeff(f, n)
        p.corr = p.constant(self.corr, 'corr', lo=0, hi=2) if corr else 1
        p.lf = p.constant(self.lf, 'lf', lo=0, hi=2)
        if self.wd:
            p.constant(self.wd_alpha, 'alpha', lo=0.1, hi=5)
        for sd in p.sides:
            if not self.nonlinear:
                h.assume(p.value(self.bath, sd) >= 0.01)
            elif not self.wd:
                h.assume(p.value(self.bath, sd) + p.value(self.eta, sd) >= 0.01)
            h.assume(p.value(self.mu, sd) >= 0)
            if self.kind != 'tracer':
                h.assume(p.value(self.model.dep, sd) >= 0)
                h.assume(p.value(self.model.ero, sd) >= 0)
        return p

    def H(self):
        H = self.bath
        if self.nonlinear:
            H = self.bath + self.eta
            if self.wd:
                H = H + 0.5*(fd.sqrt((self.bath + self.eta)**2 + self.wd_alpha**2) - (self.bath + self.eta))
        return H


_trc = {}


def tr(**kw):
    k = tuple(sorted(kw.items()))
    if k not in _trc:
        _trc[k] = Tr(**kw)
    t = _trc[k]
    t.bnd = {}
    t.fields = {k: v for k, v in t.fields.items() if not k.startswith(('diffusivity', 'source'))}
    return t


def ones(p, f):
    p.set(f, None, [1]*int(np.prod(f.ufl_shape or (1,))), 0)


def un(p, u, sd=None):
    return sum(p.value(u, sd, j)*p.n[j] for j in range(p.dim if len(p.n) == 2 else 2))
