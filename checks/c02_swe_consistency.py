"""C02: weak forms of the 2D shallow water equations are the documented PDE terms"""
import sys
from swe_common import *
from symx.consist import strong_and_flux, cell_integrand
import ufl
from firedrake import (grad, div, dot, inner, sym, as_vector, sqrt, ln, conditional, Dx, SpatialCoordinate, FacetNormal,
                       outer)

ck = Check('C02', 'consistency')
ck.encoded(*ENCODED)
ck.bound('smooth state: arbitrary value, gradient and Hessian of every field at one point; triangles; element families'
         ' dg-dg, rt-dg, dg-cg', 'one term switched on at a time plus all terms together')
ck.assumed('old-time and new-time state coincide (time-lagging of coefficients is part of C18)',
           'empty water columns are excluded (depth >= 0.01) unless wetting-drying is on')

G = physical_constants['g_grav']
RHO = physical_constants['rho0']
KAPPA = physical_constants['von_karman']


def ref_depth(s):
    H = s.bath
    if s.nonlinear:
        H = s.bath + s.eta
        if s.wd:
            H = H + 0.5*(sqrt((s.bath + s.eta)**2 + s.wd_alpha**2) - (s.bath + s.eta))
    return H


def reference(s):
    """documented right hand sides d(u)/dt = ..., d(eta)/dt = ..."""
    u, eta, f = s.uv, s.eta, s.fields
    H = ref_depth(s)
    R = -G*grad(eta)
    if s.nonlinear:
        R = R - as_vector([dot(u, grad(u[0])), dot(u, grad(u[1]))])
    if 'viscosity_h' in f:
        nu = f['viscosity_h']
        gu = as_vector([grad(u[0]), grad(u[1])])    # gu[i, j] = d u_i / d x_j
        tau = [[nu*(Dx(u[i], j) + (Dx(u[j], i) if s.options.use_grad_div_viscosity_term else 0)) for j in range(2)]
               for i in range(2)]
        R = R + as_vector([Dx(tau[i][0], 0) + Dx(tau[i][1], 1) for i in range(2)])
        if s.options.use_grad_depth_viscosity_term:
            R = R + as_vector([sum(Dx(H, i)*tau[i][j] for i in range(2))/H for j in range(2)])
    if 'coriolis' in f:
        R = R - f['coriolis']*as_vector([-u[1], u[0]])
    if 'wind_stress' in f:
        R = R + f['wind_stress']/(H*RHO)
    if 'atmospheric_pressure' in f:
        R = R - grad(f['atmospheric_pressure'])/RHO
    C = None
    if 'manning_drag_coefficient' in f:
        C = G*f['manning_drag_coefficient']**2/H**(1./3.)
    if 'quadratic_drag_coefficient' in f:
        C = f['quadratic_drag_coefficient']
    if 'nikuradse_bed_roughness' in f:
        ks = f['nikuradse_bed_roughness']
        C = conditional(H > ks, 2*KAPPA**2/ln(11.036*H/ks)**2, 0)
    if C is not None:
        R = R - C*sqrt(dot(u, u) + s.options.norm_smoother**2)*u/H
    if 'linear_drag_coefficient' in f:
        R = R - f['linear_drag_coefficient']*u
    if 'bottom_drag' in f and 'uv_bottom' in f:
        ub = f['uv_bottom']
        R = R - f['bottom_drag']*sqrt(dot(ub, ub))*ub/H
    if 'momentum_source' in f:
        R = R + f['momentum_source']
    Ce = -(Dx(H*u[0], 0) + Dx(H*u[1], 1))
    if 'volume_source' in f:
        Ce = Ce + f['volume_source']
    return R, Ce


def modesplit_reference(s):
    u, eta, f = s.uv, s.eta, s.fields
    R = -G*grad(eta)
    if 'coriolis' in f:
        R = R - f['coriolis']*as_vector([-u[1], u[0]])
    if 'momentum_source' in f:
        R = R + f['momentum_source']
    if 'atmospheric_pressure' in f:
        R = R - grad(f['atmospheric_pressure'])/RHO
    H = ref_depth(s)
    Ce = -(Dx(H*u[0], 0) + Dx(H*u[1], 1))
    if 'volume_source' in f:
        Ce = Ce + f['volume_source']
    return R, Ce


def regime(h, s, p):
    for sd in p.sides:
        b = p.value(s.bath, sd)
        if not s.nonlinear:
            h.assume(b >= 0.01)
        elif not s.wd:
            h.assume(b + p.value(s.eta, sd) >= 0.01)
        for n in ('nikuradse_bed_roughness', 'manning_drag_coefficient', 'quadratic_drag_coefficient', 'bottom_drag',
                  'viscosity_h', 'linear_drag_coefficient'):
            if n in s.fields:
                h.assume(p.value(s.fields[n], sd) > 0)
    # real-valued logarithm: away from its zero (H = ks/11.036 cannot occur where H > ks)


def cell(kw, fields, term=None):
    def run(h):
        s = swe(deg=2, **kw).use(*fields)
        with s.point(h, 'dx') as p:
            regime(h, s, p)
            if s.wd:
                p.constant(s.wd_alpha, 'alpha', lo=0.1, hi=5)
            p.constant(G, 'g', lo=1, hi=20)
            p.constant(RHO, 'rho0', lo=900, hi=1100)
            p.constant(s.lf, 'lf', lo=0, hi=2)
            p.constant(s.options.norm_smoother, 'smooth', lo=0, hi=1)
            if not h.symbolic and s.eqclass != 'freesurf':
                # the check differentiates the form: a vanishing norm has no derivative
                sm = float(s.options.norm_smoother)
                h.assume(float(p.value(s.sol, None, 0))**2 + float(p.value(s.sol, None, 1))**2 + sm*sm > 1e-12)
            ref = (modesplit_reference if s.eqclass == 'modesplit' else reference)(s)
            F = s.residual(same=True)
            x = SpatialCoordinate(s.mesh)
            parts = strong_and_flux(F, s.test, x, 2)
            if s.eqclass in ('full', 'modesplit'):
                refs = [ref[0][0], ref[0][1], ref[1]]
                names = ['u-momentum', 'v-momentum', 'continuity']
            elif s.eqclass == 'freesurf':
                refs, names = [ref[1]], ['continuity']
            else:
                refs, names = [ref[0][0], ref[0][1]], ['u-momentum', 'v-momentum']
            for (S, _), r, n in zip(parts, refs, names):
                if h.symbolic:
                    h.prove_eq(p.expr(S), p.expr(r), f'{n}: strong form')
                else:
                    # the weak form itself, tested with polynomials that vanish on no point: compare both sides
                    h.prove_eq(p.expr(S), p.expr(r), f'{n}: strong form', scale=1e3)
    return run


def facet(kw, fields):
    def run(h):
        s = swe(deg=2, **kw).use(*fields)
        with s.point(h, 'dS') as p:
            p.same_on_both_sides(s.sol)
            p.same_on_both_sides(s.bath)
            for n in s.fields:
                if isinstance(s.fields[n], fd.Function):
                    p.same_on_both_sides(s.fields[n])
            regime(h, s, p)
            if s.wd:
                p.constant(s.wd_alpha, 'alpha', lo=0.1, hi=5)
            p.constant(G, 'g', lo=1, hi=20)
            p.constant(s.lf, 'lf', lo=0, hi=2)
            F = s.residual(same=True)
            w = {'full': s.w, 'modesplit': s.w, 'freesurf': s.we, 'momentum': s.wu}[s.eqclass]
            val = p.integral(F, {s.test: w})
            x = SpatialCoordinate(s.mesh)
            parts = strong_and_flux(F, s.test, x, 2)
            tot = val
            for c, (S, B) in enumerate(parts):
                for sd, sg in (('+', 1), ('-', -1)):
                    wc = p.value(w, sd, c)
                    for j in range(2):
                        tot = tot + sg*wc*p.n[j]*p.expr(B[j], sd)
            h.prove_eq(tot, 0, 'no left-over on an interior facet', scale=1e4)
    return run


def orient(kw, fields):
    """the sum over the facet does not depend on which cell is called '+'"""
    def run(h):
        s = swe(deg=2, **kw).use(*fields)
        with s.point(h, 'dS') as p:
            if s.wd:
                p.constant(s.wd_alpha, 'alpha', lo=0.1, hi=5)
            positive_depth(h, s, p)
            p.constant(s.lf, 'lf', lo=0, hi=2)
            F = s.form()
            a = p.integral(F)
            q = p.swapped()
            if not h.symbolic:
                p.close()
            b = q.integral(F)
            h.prove_eq(a, b, 'independent of the numbering of the two cells', scale=1e4)
    return run


def boundary(kw, fields, tags):
    def run(h):
        s = swe(deg=2, **kw).use(*fields)
        with s.point(h, 'ds', 1) as p:
            regime(h, s, p)
            if s.wd:
                p.constant(s.wd_alpha, 'alpha', lo=0.1, hi=5)
            p.constant(G, 'g', lo=1, hi=20)
            p.constant(s.lf, 'lf', lo=0, hi=2)
            u = p.vals(s.uv)
            n = p.n
            un = u[0]*n[0] + u[1]*n[1]
            L = frac(s.mesh.boundary_len[1]) if h.symbolic else float(s.mesh.boundary_len[1])
            H = p.expr(ref_depth(s))
            # prescribed normal velocity/flux describes an exterior state without tangential velocity
            if 'un' in tags or 'flux' in tags:
                un = h.real('un', lo=-100, hi=100)
                u = [un*n[0], un*n[1]]
                p.set(s.uv, None, u)
            want = {'elev': p.value(s.eta), 'uv': u, 'un': un, 'flux': un*H*L}
            data, vals = {}, {}
            for t in tags:
                data[t] = fd.Constant((0.0, 0.0)) if t == 'uv' else fd.Constant(0.0)
                if t == 'drag':
                    vals[t] = p.constant(data[t], 'bc.drag', lo=0, hi=100)
                else:
                    p.setconst(data[t], want[t])
            if tags:
                s.bnd = {1: data}
            if not tags or tags == ('drag',):
                h.assume_eq(un, 0)
            F = s.residual(same=True)
            w = {'full': s.w, 'freesurf': s.we, 'momentum': s.wu}[s.eqclass]
            val = p.integral(F, {s.test: w})
            x = SpatialCoordinate(s.mesh)
            tot = val
            for c, (S, B) in enumerate(strong_and_flux(F, s.test, x, 2)):
                wc = p.value(w, None, c)
                for j in range(2):
                    tot = tot + wc*n[j]*p.expr(B[j])
            if tags == ('drag',):
                C = vals['drag']
                ut = [u[i] - un*n[i] for i in range(2)]
                mag = ssqrt(ut[0]*ut[0] + ut[1]*ut[1])
                tot = tot + C*mag*(ut[0]*p.value(w, None, 0) + ut[1]*p.value(w, None, 1))
            h.prove_eq(tot, 0, 'no left-over on a boundary with matching data', scale=1e4)
    return run


ALONE = [(), ('coriolis',), ('wind_stress',), ('atmospheric_pressure',), ('manning_drag_coefficient',),
         ('quadratic_drag_coefficient',), ('nikuradse_bed_roughness',), ('linear_drag_coefficient',),
         ('bottom_drag', 'uv_bottom'), ('momentum_source',), ('volume_source',), ('viscosity_h',)]
BASE = [dict(family='dg-dg', nonlinear=True, wd=False), dict(family='dg-dg', nonlinear=False, wd=False),
        dict(family='dg-dg', nonlinear=True, wd=True), dict(family='dg-cg', nonlinear=True, wd=False)]
for b in BASE:
    t = f"{b['family']},{'nl' if b['nonlinear'] else 'lin'}{',wd' if b['wd'] else ''}"
    for fs in ALONE:
        ck.harness(f'cell[{t}|{",".join(fs)}]', cell(b, fs), validate=(b is BASE[0] and fs in ((), ('coriolis',))))
VISC = ('viscosity_h',)
for gd in (False, True):
    for gH in (False, True):
        kw = dict(BASE[0], use_grad_div_viscosity_term=gd, use_grad_depth_viscosity_term=gH)
        ck.harness(f'cell[visc gd={gd} gH={gH}]', cell(kw, VISC), validate=False)
        ck.harness(f'facet[visc gd={gd} gH={gH}]', facet(kw, VISC), validate=gd and not gH)
        for tags in (('uv',), ('elev', 'uv')):
            ck.harness(f'boundary[visc gd={gd} gH={gH}|{"+".join(tags)}]', boundary(kw, VISC, tags), validate=False)
for fam in ('dg-dg', 'rt-dg', 'dg-cg'):
    for nl, wd in ((True, False), (False, False), (True, True)):
        kw = dict(family=fam, nonlinear=nl, wd=wd)
        ck.harness(f'facet[{fam},{nl},{wd}]', facet(kw, ('coriolis', 'linear_drag_coefficient')), validate=(nl and not wd and fam == 'dg-dg'))
        for tags in ((), ('drag',)) + BND_COMBOS:
            ck.harness(f'boundary[{fam},{nl},{wd}|{"+".join(tags)}]', boundary(kw, (), tags),
                       validate=(fam == 'dg-dg' and nl and not wd and tags in ((), ('elev', 'uv'))))
for fam in ('dg-dg', 'rt-dg', 'dg-cg'):
    for nl, wd in ((True, False), (False, False), (True, True)):
        ck.harness(f'orientation[{fam},{nl},{wd}]', orient(dict(family=fam, nonlinear=nl, wd=wd), ()),
                   validate=(fam == 'dg-dg' and nl and not wd))
for gd in (False, True):
    for gH in (False, True):
        ck.harness(f'orientation[visc gd={gd} gH={gH}]',
                   orient(dict(BASE[0], use_grad_div_viscosity_term=gd, use_grad_depth_viscosity_term=gH), VISC),
                   validate=gd)
for lf in (False,):
    ck.harness('facet[no-lf]', facet(dict(BASE[0], use_lax_friedrichs_velocity=False), ()), validate=False)
for e, fs in (('modesplit', ('coriolis', 'momentum_source', 'volume_source', 'atmospheric_pressure')),
              ('freesurf', ('volume_source',)),
              ('momentum', ('coriolis', 'momentum_source', 'wind_stress', 'linear_drag_coefficient'))):
    ck.harness(f'cell[{e}]', cell(dict(BASE[0], eqclass=e), fs), validate=False)
    ck.harness(f'facet[{e}]', facet(dict(BASE[0], eqclass=e), fs), validate=False)
ck.finish()
