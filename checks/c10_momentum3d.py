"""C10: 3D momentum equation: consistency, conservation, dissipation, boundary data"""
from three_common import *
import types
import math
from firedrake import Dx
import thetis.momentum_eq as me
import thetis.utility3d as u3
from symx.core import sym_fn, is_sym

ck = Check('C10', '3D momentum')
TECHNIQUE = 'symbolic execution of the real 3D momentum residuals at an arbitrary integration point of every kind of an extruded mesh;' \
            ' z3 decides the identities and signs for all values'
ck.encoded('momentum_eq.MomentumEquation', 'momentum_eq.PressureGradientTerm.residual', 'momentum_eq.HorizontalAdvectionTerm.residual',
           'momentum_eq.VerticalAdvectionTerm.residual', 'momentum_eq.HorizontalViscosityTerm.residual',
           'momentum_eq.VerticalViscosityTerm.residual', 'momentum_eq.BottomFrictionTerm.residual', 'momentum_eq.LinearDragTerm.residual',
           'momentum_eq.CoriolisTerm.residual', 'momentum_eq.SourceTerm.residual')
ck.bound('one point of a cell, of a vertical and a horizontal interior facet, of the surface, the bottom and a lateral boundary;'
         ' arbitrary facet slopes; smooth state = arbitrary value, gradient, Hessian; facet properties: arbitrary discontinuous state;'
         ' triangular prisms, degree 1 and 2')
ck.assumed('the velocity fields have a zero third component; the depth average does not vary over the depth',
           'viscous fluxes through closed lateral boundaries are zero (no term), through surface and bottom they are those of the state')
RHO0, KAPPA = 1000, Fr(4, 10)


class M3:
    def __init__(self, deg=1, lf=True, nonlinear=True, friction=False, dav=True, wmesh=True, rt=False):
        m = self.mesh = mesh3()
        self.deg, self.nonlinear, self.friction, self.use_dav, self.use_wm = deg, nonlinear, friction, dav, wmesh
        V = space(deg, True) if not rt else get_functionspace(m, 'RT', deg + 1, 'DG', deg, hdiv=True)
        C, D = space(deg, fam='CG'), space(deg)
        Vd = space(deg, True)
        for n in ('u', 'uold', 'w', 'dav'):
            setattr(self, n, fd.Function(V, name=n))
        for n in ('vel', 'pg', 'S', 'tau'):
            setattr(self, n, fd.Function(Vd, name=n))
        for n in ('wm', 'bath'):
            setattr(self, n, fd.Function(C, name=n))
        for n in ('mu', 'nu', 'eta', 'f', 'lin', 'cd', 'z0', 'hz'):
            setattr(self, n, fd.Function(D, name=n))
        self.lf = fd.Constant(1.0)
        self.sh, self.sv = fd.Constant(1.5), fd.Constant(2.5)
        self.eq = me.MomentumEquation(V, bathymetry=self.bath, v_elem_size=self.hz, h_elem_size=None, use_nonlinear_equations=nonlinear,
                                      use_lax_friedrichs=lf, use_bottom_friction=friction, sipg_factor=self.sh, sipg_factor_vertical=self.sv)
        self.test = self.eq.test
        self.base = {'uv_depth_av': self.dav if dav else None, 'w': self.vel, 'w_mesh': self.wm if wmesh else None, 'eta': self.eta,
                     'lax_friedrichs_velocity_scaling_factor': self.lf}

    KEY = {'mu': 'viscosity_h', 'nu': 'viscosity_v', 'S': 'source', 'pg': 'int_pg', 'f': 'coriolis', 'lin': 'linear_drag_coefficient',
           'cd': 'quadratic_drag_coefficient', 'z0': 'bottom_roughness', 'tau': 'wind_stress'}

    def use(self, *n):
        self.fields = dict(self.base)
        self.bnd = {}
        for k in n:
            self.fields[self.KEY[k]] = getattr(self, k)
        return self

    def F(self, label='all'):
        return self.eq.residual(label, self.u, self.uold, self.fields, self.fields, self.bnd)

    def term(self, name):
        return self.eq.terms[name].residual(self.u, self.uold, self.fields, self.fields, self.bnd)

    def U(self):
        return self.u + self.dav if self.use_dav else self.u

    def Uo(self):
        return self.uold + self.dav if self.use_dav else self.uold

    def wrel(self):
        return self.vel[2] - self.wm if self.use_wm else self.vel[2]

    def point(self, h, kind, subdomain=None):
        p = Point(h, self.mesh, kind, subdomain)
        for n in ('u', 'uold', 'w', 'vel', 'pg', 'S', 'tau', 'wm', 'mu', 'nu', 'bath', 'eta', 'f', 'lin', 'cd', 'z0', 'hz'):
            p.coeff(getattr(self, n), n)
        p.coeff(self.dav, 'dav', zero_z=True)
        p.lf = p.constant(self.lf, 'lf', lo=0, hi=2)
        p.sh = p.constant(self.sh, 'sh', lo=1, hi=10)
        p.sv = p.constant(self.sv, 'sv', lo=1, hi=10)
        for sd in p.sides:
            for f in (self.u, self.uold, self.dav, self.w):
                self.flat(p, f, sd)
            for n in ('mu', 'nu', 'lin', 'cd'):
                h.assume(p.value(getattr(self, n), sd) >= 0)
            h.assume(p.value(self.z0, sd) >= Fr(1, 1000))
            h.assume(p.value(self.hz, sd) >= Fr(1, 100))
        return p

    def flat(self, p, f, sd):
        """no third component"""
        info = p.coeff(f)
        if info.cont == 'hdiv':
            for c in range(2):
                p.value(f, sd, c)
        p.set(f, sd, [p.value(f, sd, 0), p.value(f, sd, 1), 0],
              [[p.grad(f, sd, c, j) for j in range(3)] for c in range(2)] + [[0, 0, 0]])
        s = sd if p.interior else None
        for i in range(3):
            for j in range(i, 3):
                info.hess[(s, 2, i, j)] = Fr(0)


_m = {}


def m3(**kw):
    k = tuple(sorted(kw.items()))
    if k not in _m:
        _m[k] = M3(**kw)
    return _m[k].use()


ALL = ('mu', 'nu', 'S', 'pg', 'f', 'lin', 'tau')


def smooth(p, t):
    for f in (t.u, t.uold, t.dav, t.vel, t.wm, t.mu, t.nu, t.eta):
        p.same_on_both_sides(f)
    for f in (t.u, t.uold, t.dav):
        for sd in p.sides:
            t.flat(p, f, sd)


def strong(t, i):
    U, Uo, w = t.U(), t.Uo(), t.wrel()
    R = 0
    if t.nonlinear:
        R = R - Dx(U[i]*Uo[0], 0) - Dx(U[i]*Uo[1], 1) - Dx(U[i]*w, 2)
    R = R + Dx(t.mu*Dx(U[i], 0), 0) + Dx(t.mu*Dx(U[i], 1), 1) + Dx(t.nu*Dx(t.u[i], 2), 2)
    R = R - t.pg[i] - t.lin*U[i] + t.S[i]
    R = R + (t.f*t.u[1] if i == 0 else -t.f*t.u[0])
    return R


def cell(kw):
    def run(h):
        t = m3(deg=2, **kw).use(*ALL)
        with t.point(h, 'dx') as p:
            SB = strong_and_flux(t.F(), t.test, fd.SpatialCoordinate(t.mesh), 3)
            for i in range(2):
                h.prove_eq(p.expr(SB[i][0]), p.expr(strong(t, i)), f'the weak form is the momentum equation ({i})', scale=1e3)
    return run


def facet(kw, kind):
    def run(h):
        t = m3(deg=2, **kw).use(*ALL)
        with t.point(h, kind) as p:
            smooth(p, t)
            h.prove_eq(left_over(p, t.F(), t.test, t.w), 0, 'no left-over on an interior facet', scale=1e4)
    return run


def vec(p, t, f, sd=None):
    return [p.value(f, sd, j) + (p.value(t.dav, sd, j) if t.use_dav else 0) for j in range(2)]


def hn(p, t, f, sd=None):
    v = vec(p, t, f, sd)
    return v[0]*p.n[0] + v[1]*p.n[1]


def wn(p, t, sd=None):
    return (p.value(t.vel, sd, 2) - (p.value(t.wm, sd) if t.use_wm else 0))*p.n[2]


def tdot(p, t, a, sd=None):
    return a[0]*p.value(t.w, sd, 0) + a[1]*p.value(t.w, sd, 1)


def ln(h, x):
    return sym_fn('ln', x) if is_sym(x) else math.log(float(x))


def same(p, t):
    """at the surface the advected and the advecting velocity change roles in the linearised form: claimed for equal ones"""
    p.set(t.uold, None, [p.value(t.u, None, j) for j in range(3)], [[p.grad(t.u, None, i, j) for j in range(3)] for i in range(3)])


def ends(kw, kind, fields, drag=None):
    def run(h):
        t = m3(deg=2, **kw).use(*fields)
        with t.point(h, kind) as p:
            if kind == 'ds_t':
                same(p, t)
            U = vec(p, t, t.u)
            visc = -p.value(t.nu)*p.n[2]*tdot(p, t, [p.grad(t.u, None, i, 2) for i in range(2)]) if 'nu' in fields else 0
            got = left_over(p, t.F(), t.test, t.w)
            if kind == 'ds_t':
                want = visc
                if 'tau' in fields and 'nu' in fields:
                    want = want + tdot(p, t, [p.value(t.tau, None, i) for i in range(2)])/RHO0
                h.prove_eq(got, want, 'surface: stress = wind stress, free advective flux', scale=1e4)
                return
            want = visc
            if t.nonlinear:
                want = want + tdot(p, t, U)*(hn(p, t, t.uold) + wn(p, t))
            if t.friction:
                if drag == 'cd':
                    cd = p.value(t.cd)
                else:
                    z0, hz = p.value(t.z0), p.value(t.hz)
                    b = -Fr(7, 4)*hz - Fr(3, 2)*z0 + (hz + Fr(5, 2)*z0)*ln(h, (hz + z0)/z0) if h.symbolic else \
                        -7/4*hz - 3/2*z0 + (hz + 5/2*z0)*math.log((hz + z0)/z0)
                    if h.symbolic:
                        h.assume(b != 0)
                    kap = KAPPA if h.symbolic else 0.4
                    cd = (kap*hz/b)*(kap*hz/b)
                Uo = vec(p, t, t.uold)
                want = want - cd*ssqrt(Uo[0]*Uo[0] + Uo[1]*Uo[1])*tdot(p, t, U)
            h.prove_eq(got, want, 'bottom: impermeable, stress = drag', scale=1e4)
    return run


def closed(kw, lf):
    def run(h):
        t = m3(lf=lf, **kw).use(*ALL)
        with t.point(h, 'ds_v', 1) as p:
            r = p.integral(t.F(), {t.test: t.w})
            un = hn(p, t, t.u)
            want = -p.lf*abs(un)*un*(p.value(t.w, None, 0)*p.n[0] + p.value(t.w, None, 1)*p.n[1]) if lf and t.nonlinear else 0
            h.prove_eq(r, want, 'closed boundary: at most the normal velocity is damped', scale=1e4)
    return run


def conserve(kw, kind, i):
    def run(h):
        t = m3(**kw).use('mu', 'nu')
        with t.point(h, kind) as p:
            for sd in p.sides:
                p.set(t.w, sd, [int(i == 0), int(i == 1), 0], 0)
            if kind == 'ds_t':
                same(p, t)
                p.set(t.mu, None, [0], 0)
                h.assume_eq(hn(p, t, t.uold) + wn(p, t), 0)
            h.prove_eq(p.integral(t.F(), {t.test: t.w}), 0, f'{kind}: no momentum gained or lost', scale=1e3)
    return run


def labels(kind):
    def run(h):
        t = m3(friction=True).use(*ALL, 'z0')
        with t.point(h, kind, 1 if kind == 'ds_v' else None) as p:
            a = p.integral(t.F(), {t.test: t.w})
            b = sum((p.integral(G, {t.test: t.w}) if is_form(G) else G) for G in (t.F('source'), t.F('explicit')))
            h.prove_eq(a, b, 'explicit and source parts add up to the equation', scale=1e3)
            for lab in ('implicit', 'nonlinear'):
                h.prove(not is_form(t.F(lab)), f'no {lab} part')
            s = p.integral(t.F('source'), {t.test: t.w})
            want = 0
            if kind == 'dx':
                want = tdot(p, t, [p.value(t.S, None, i) - p.value(t.pg, None, i) for i in range(2)])
            elif kind == 'ds_t':
                want = tdot(p, t, [p.value(t.tau, None, i) for i in range(2)])/RHO0
            h.prove_eq(s, want, 'sources: pressure gradient, source, wind stress', scale=1e3)
    return run


def upwind(kw, kind, which):
    def run(h):
        t = m3(lf=False, **kw)
        with t.point(h, kind) as p:
            r = p.integral(t.term(which), {t.test: t.w})
            f = {sd: hn(p, t, t.uold, sd) if which.startswith('H') else wn(p, t, sd) for sd in '+-'}
            flux = (f['+'] + f['-'])/2
            h.assume(flux != 0)
            up = '+' if flux > 0 else '-'
            U = vec(p, t, t.u, up)
            h.prove_eq(r, -flux*sum(U[i]*(p.value(t.w, '+', i) - p.value(t.w, '-', i)) for i in range(2)),
                       'facet value comes from upstream', scale=1e4)
    return run


def orient(kw):
    def run(h):
        t = m3(**kw).use('mu', 'nu')
        with t.point(h, 'dS_v') as p:
            a = p.integral(t.F(), {t.test: t.w})
            q = p.swapped()
            if not h.symbolic:
                p.close()
            b = q.integral(t.F(), {t.test: t.w})
            h.prove_eq(a, b, 'independent of the numbering of the two cells', scale=1e4)
    return run


def energy(t, p):
    """test function = total velocity"""
    for sd in p.sides:
        p.set(t.w, sd, vec(p, t, t.u, sd) + [0], [[p.grad(t.u, sd, i, j) + (p.grad(t.dav, sd, i, j) if t.use_dav else 0) for j in range(3)]
                                                  for i in range(2)] + [[0, 0, 0]])


def lf(kw, kind):
    def run(h):
        a, b = m3(lf=True, **kw), m3(lf=False, **kw)
        r = []
        for t in (a, b):
            with t.point(h, kind) as p:
                energy(t, p)
                r.append([p.integral(t.term(n), {t.test: t.w}) if kind == 'dS_h' or n.startswith('H') else 0
                          for n in ('HorizontalAdvectionTerm', 'VerticalAdvectionTerm')])
                J = [vec(p, t, t.u, '+')[i] - vec(p, t, t.u, '-')[i] for i in range(2)]
                sp = [(hn(p, t, t.uold, '+') + hn(p, t, t.uold, '-'))/2, (wn(p, t, '+') + wn(p, t, '-'))/2]
                lfv = p.lf
        for i, s in enumerate(sp):
            d = r[0][i] - r[1][i]
            h.prove_le(d, 0, 'Lax-Friedrichs only removes energy', tol=0 if h.symbolic else 1e-3)
            if kind == 'dS_h' or i == 0:
                h.prove_eq(d, -lfv*abs(s)*(J[0]*J[0] + J[1]*J[1])/2, 'proportional to the speed and the jump', scale=1e4)
    return run


def dissipate(term, kind, fields, kw):
    def run(h):
        t = m3(**kw).use(*fields)
        with t.point(h, kind) as p:
            energy(t, p)
            if term == 'CoriolisTerm':
                for sd in p.sides:
                    p.set(t.w, sd, [p.value(t.u, sd, 0), p.value(t.u, sd, 1), 0])
                h.prove_eq(p.integral(t.term(term), {t.test: t.w}), 0, 'Coriolis does no work on the deviation')
                return
            if term == 'BottomFrictionTerm' and 'z0' in fields and h.symbolic:
                z0, hz = p.value(t.z0), p.value(t.hz)
                h.assume(-Fr(7, 4)*hz - Fr(3, 2)*z0 + (hz + Fr(5, 2)*z0)*ln(h, (hz + z0)/z0) != 0)
            if term == 'VerticalViscosityTerm':
                for sd in p.sides:
                    p.set(t.dav, sd, [0, 0, 0])
                energy(t, p)
            h.prove_le(p.integral(t.term(term), {t.test: t.w}), 0, f'{term} removes energy', tol=0 if h.symbolic else 1e-3)
    return run


def visc_sym(deg, which, kind):
    def run(h):
        t = m3(deg=deg, dav=False).use('mu', 'nu')
        with t.point(h, kind) as p:
            F = fd.replace(t.term(which), {t.test: t.w})
            a = p.integral(F)
            b = p.integral(fd.replace(fd.replace(fd.replace(F, {t.u: t.uold}), {t.w: t.u}), {t.uold: t.w}))
            h.prove_eq(a, b, 'symmetric', scale=1e4)
            if which[0] == 'V' and kind != 'dS_h' and kind != 'dx':
                h.prove_eq(a, 0, 'vertical viscosity acts across horizontal facets only')
    return run


def penalty(deg, which, kind):
    def run(h):
        t = m3(deg=deg, dav=False).use('mu', 'nu')
        m = t.mu if which[0] == 'H' else t.nu
        with t.point(h, kind) as p:
            for sd in p.sides:
                v = [p.value(t.u, sd, 0), p.value(t.u, sd, 1), 0]
                p.set(t.u, sd, v, 0)
                p.set(t.w, sd, v, 0)
            r = p.integral(t.term(which), {t.test: t.w})
            J = sum((p.value(t.u, '+', i) - p.value(t.u, '-', i))*(p.value(t.u, '+', i) - p.value(t.u, '-', i)) for i in range(2))
            mu = (p.value(m, '+') + p.value(m, '-'))/2
            nn = p.n[0]*p.n[0] + p.n[1]*p.n[1] if which[0] == 'H' else p.n[2]*p.n[2]
            h.prove_le(r, 0, 'the jump penalty only removes energy', tol=0 if h.symbolic else 1e-3)
            cp = (deg + 1)*(deg + 2)//2 if which[0] == 'H' else (deg + 1)**2
            for sd in p.sides:
                il = p.expr(fd.FacetArea(t.mesh)/fd.CellVolume(t.mesh), sd)
                h.prove_le(r, -(p.sh if which[0] == 'H' else p.sv)*cp*il*mu*nn*J, f'penalty at least the coercivity scale {sd}',
                           tol=0 if h.symbolic else 1e-3)
    return run


# -- boundary data -----------------------------------------------------------------------------------------------------------------
def data(h, t, p, tag, match=False):
    U = vec(p, t, t.u)
    un = U[0]*p.n[0] + U[1]*p.n[1]
    L = frac(t.mesh.boundary_len[1]) if h.symbolic else float(t.mesh.boundary_len[1])
    H = p.value(t.bath) + p.value(t.eta)
    h.assume(H >= Fr(1, 100))
    if tag == 'symm':
        t.bnd = {1: {'symm': None}}
        return U
    c = fd.Constant((0.0, 0.0, 0.0)) if tag == 'uv' else fd.Constant(0.0)
    t.bnd = {1: {tag: c}}
    if match:
        v = {'uv': U + [0], 'un': un, 'flux': un*H*L}[tag]
        p.setconst(c, v)
    elif tag == 'uv':
        v = [h.real(f'bc.uv{j}', lo=-1000, hi=1000) for j in range(2)] + [0]
        p.setconst(c, v)
    else:
        v = p.constant(c, 'bc', lo=-10000, hi=10000)
    if tag == 'uv':
        return v[:2]
    e = v if tag == 'un' else v/(H*L)
    return [e*p.n[0], e*p.n[1]]


def bnd(tag, kw):
    def run(h):
        t = m3(**kw)
        with t.point(h, 'ds_v', 1) as p:
            U = vec(p, t, t.u)
            V = data(h, t, p, tag)
            r = p.integral(t.F(), {t.test: t.w})
            if not t.nonlinear:
                h.prove_eq(r, 0, 'no advection in the linear equations')
                return
            ui = U[0]*p.n[0] + U[1]*p.n[1]
            an = (ui + V[0]*p.n[0] + V[1]*p.n[1])/2
            h.assume(an != 0)
            if an > 0:
                h.prove_eq(r, -ui*tdot(p, t, U), 'outflow carries the interior velocity', scale=1e4)
            else:
                h.prove_eq(r, -ui*tdot(p, t, U) - an*tdot(p, t, [V[0] - U[0], V[1] - U[1]]), 'inflow carries the external velocity', scale=1e4)
    return run


def bnd_match(tag):
    def run(h):
        t = m3(deg=2)
        with t.point(h, 'ds_v', 1) as p:
            p.set(t.uold, None, [p.value(t.u, None, j) for j in range(3)], [[p.grad(t.u, None, i, j) for j in range(3)] for i in range(3)])
            if tag in ('un', 'flux'):
                v = h.real('unv', lo=-100, hi=100)
                for f in (t.u, t.uold):
                    p.set(f, None, [v*p.n[0], v*p.n[1], 0])
                p.set(t.dav, None, [0, 0, 0])
            data(h, t, p, tag, match=True)
            h.prove_eq(left_over(p, t.F(), t.test, t.w), 0, 'no left-over on a boundary with matching data', scale=1e4)
    return run


def others(kind, sub):
    def run(h):
        t = m3().use(*ALL)
        t.bnd = {1: {'un': fd.Constant(-1.0)}}
        F = t.F()
        t.bnd = {}
        G = t.F()
        with t.point(h, kind, sub) as p:
            h.prove_eq(p.integral(F, {t.test: t.w}), p.integral(G, {t.test: t.w}), f'{kind} {sub} unaffected', scale=1e3)
    return run


def constancy(kind, open_bnd=False):
    """advection of a constant velocity = that velocity times the discrete continuity equation of the advecting velocity"""
    def run(h):
        t = m3(wmesh=False, lf=False, dav=False)
        t.bnd = {1: {'symm': None}} if open_bnd else {}
        with patched((u3, 'LinearVariationalSolver', lambda *a, **k: types.SimpleNamespace(solve=lambda: None))):
            vs = u3.VerticalVelocitySolver(t.vel, t.uold, t.bath, t.bnd)
        cont = vs.prob.F
        test = cont.arguments()[0]
        tv = fd.Function(space(1, True), name='tv')
        with t.point(h, kind, 1 if kind == 'ds_v' else None) as p:
            k = [h.real(f'const{i}', lo=-1000, hi=1000) for i in range(2)]
            p.set(t.u, None, k + [0], 0)
            if open_bnd or kind == 'ds_t':
                p.set(t.uold, None, k + [0], 0)
            p.coeff(tv, 'tv')
            for sd in p.sides:
                p.set(tv, sd, [0, 0, tdot(p, t, k, sd)], [[0, 0, 0], [0, 0, 0], [k[0]*p.grad(t.w, sd, 0, j) + k[1]*p.grad(t.w, sd, 1, j) for j in range(3)]])
            a = p.integral(t.F(), {t.test: t.w})
            b = p.integral(cont, {test: tv})
            h.prove_eq(a, -b, 'a constant velocity is only changed where continuity is violated', scale=1e4)
    return run


def unsupported(h):
    t = m3()
    t.bnd = {1: {'elev': fd.Constant(0.0)}}
    try:
        t.F()
        ok = False
    except Exception:
        ok = True
    h.prove(ok, 'unsupported boundary data are refused')


for nl in (True, False):
    for dav in (True, False):
        for wm in (True, False):
            k = dict(nonlinear=nl, dav=dav, wmesh=wm)
            n = f'nl={int(nl)},dav={int(dav)},wmesh={int(wm)}'
            v = nl and dav and wm
            ck.harness(f'cell[{n}]', cell(k), validate=v and ck.thorough)
            for kind in INNER:
                ck.harness(f'facet[{kind},{n}]', facet(k, kind), validate=v and ck.thorough)
                if nl:
                    ck.harness(f'upwind[{kind},h,{n}]', upwind(k, kind, 'HorizontalAdvectionTerm'), validate=v, expect_paths=2)
                for i in range(2):
                    ck.harness(f'conserve[{kind},{n},{i}]', conserve(k, kind, i), validate=False)
            if nl:
                ck.harness(f'upwind[dS_h,v,{n}]', upwind(k, 'dS_h', 'VerticalAdvectionTerm'), validate=v, expect_paths=2)
            for i in range(2):
                ck.harness(f'conserve[ds_t,{n},{i}]', conserve(k, 'ds_t', i), validate=False)
            ck.harness(f'ends[top,{n}]', ends(k, 'ds_t', ALL), validate=v and ck.thorough)
            ck.harness(f'ends[bottom,{n}]', ends(k, 'ds_b', ALL), validate=v and ck.thorough)
        for drag in ('cd', 'z0'):
            kf = dict(nonlinear=nl, dav=dav, friction=True)
            ck.harness(f'ends[bottom,{drag},nl={int(nl)},dav={int(dav)}]', ends(kf, 'ds_b', ('nu', drag), drag), validate=not nl and dav)
        for lfx in (True, False):
            ck.harness(f'closed[nl={int(nl)},dav={int(dav)},lf={int(lfx)}]', closed(dict(nonlinear=nl, dav=dav), lfx), validate=nl and dav and lfx)
for f in (('tau',), ('nu',), ('tau', 'nu'), ()):
    ck.harness(f'ends[top,{"+".join(f)}]', ends(dict(nonlinear=False), 'ds_t', f), validate=len(f) == 2)
for kind in ('dx', 'dS_v', 'dS_h', 'ds_t', 'ds_b', 'ds_v'):
    ck.harness(f'labels[{kind}]', labels(kind), validate=kind == 'dx' and ck.thorough)
for kind in INNER:
    ck.harness(f'facet[rt,{kind}]', facet(dict(rt=True), kind), validate=False)
    ck.harness(f'lf[{kind}]', lf({}, kind), validate=True)
for lfx in (True, False):
    ck.harness(f'orientation[lf={int(lfx)}]', orient(dict(lf=lfx)), validate=lfx)
for dav in (True, False):
    k = dict(dav=dav)
    ck.harness(f'coriolis[{dav}]', dissipate('CoriolisTerm', 'dx', ('f',), k), validate=dav)
    ck.harness(f'linear-drag[{dav}]', dissipate('LinearDragTerm', 'dx', ('lin',), k), validate=False)
    ck.harness(f'viscosity-h[{dav}]', dissipate('HorizontalViscosityTerm', 'dx', ('mu',), k), validate=False)
    ck.harness(f'viscosity-v[{dav}]', dissipate('VerticalViscosityTerm', 'dx', ('nu',), k), validate=False)
    for drag in ('cd', 'z0'):
        def fr(h, k=dict(k, friction=True), drag=drag):
            t = m3(**k).use(drag)
            with t.point(h, 'ds_b') as p:
                energy(t, p)
                U, Uo = vec(p, t, t.u), vec(p, t, t.uold)
                if drag == 'z0' and h.symbolic:
                    z0, hz = p.value(t.z0), p.value(t.hz)
                    h.assume(-Fr(7, 4)*hz - Fr(3, 2)*z0 + (hz + Fr(5, 2)*z0)*ln(h, (hz + z0)/z0) != 0)
                r = p.integral(t.term('BottomFrictionTerm'), {t.test: t.w})
                h.prove_le(r, 0, 'bottom friction removes energy', tol=0 if h.symbolic else 1e-3)
                for kind in ():
                    pass
        ck.harness(f'bottom-friction[{dav},{drag}]', fr, validate=False)
for deg in (1, 2):
    for kind in ('dx', 'dS_v', 'dS_h'):
        ck.harness(f'symmetric[H,{kind},{deg}]', visc_sym(deg, 'HorizontalViscosityTerm', kind), validate=ck.thorough and deg == 1 and kind == 'dS_v')
        if kind != 'dx':
            ck.harness(f'penalty[H,{kind},{deg}]', penalty(deg, 'HorizontalViscosityTerm', kind), validate=False)
    for kind in ('dx', 'dS_v', 'dS_h', 'ds_v', 'ds_t', 'ds_b'):
        ck.harness(f'symmetric[V,{kind},{deg}]', visc_sym(deg, 'VerticalViscosityTerm', kind), validate=deg == 1 and kind == 'dS_h')
    ck.harness(f'penalty[V,dS_h,{deg}]', penalty(deg, 'VerticalViscosityTerm', 'dS_h'), validate=False)
for tag in ('symm', 'uv', 'un', 'flux'):
    for nl in (True, False):
        ck.harness(f'bnd[{tag},nl={int(nl)}]', bnd(tag, dict(nonlinear=nl)), validate=nl and tag in ('flux',), expect_paths=2 if nl and tag == 'flux' else 1)
    ck.harness(f'bnd-match[{tag}]', bnd_match(tag), validate=False)
for kind, sub in (('ds_v', 2), ('ds_v', 3), ('ds_v', 4), ('ds_t', None), ('ds_b', None)):
    ck.harness(f'others[{kind},{sub}]', others(kind, sub), validate=False)
for kind in ('dx', 'dS_v', 'dS_h', 'ds_t', 'ds_b', 'ds_v'):
    ck.harness(f'constancy[{kind}]', constancy(kind), validate=False)
ck.harness('constancy[ds_v,open]', constancy('ds_v', True), validate=False)
ck.harness('unsupported', unsupported, validate=False)
ck.finish()
