"""C03: dissipative terms of the 2D shallow water equations never add kinetic energy; the wave part never gains energy"""
from swe_common import *
from thetis import turbines
from thetis.options import DiscreteTidalTurbineFarmOptions

ck = Check('C03', 'energetics')
ck.encoded(*ENCODED, 'turbines.TidalTurbineFarm.friction_coefficient')
ck.bound('one integration point of each type, arbitrary values and gradients on both sides; triangles; element families'
         ' dg-dg, rt-dg, dg-cg (bdm-dg for the wave part)')
ck.assumed('wave energy: locally uniform undisturbed depth', 'coefficients (drag, viscosity, Lax-Friedrichs factor) are'
           ' non-negative', 'coercivity of the interior penalty (size of the penalty factor) is not part of the claim')
G = physical_constants['g_grav']


def test_is_velocity(p, s, scale=1):
    for sd in p.sides:
        u = p.vals(s.uv, sd)
        p.set(s.wu, sd, [scale*c for c in u])
    for sd in p.sides:
        gu = p.grads(s.uv, sd)
        p.set(s.wu, sd, None, [[scale*c for c in r] for r in gu])


def positive(h, s, p, *names):
    for n in names:
        for sd in p.sides:
            h.assume(p.value(s.fields[n], sd) >= 0)


def common(h, s, p):
    positive_depth(h, s, p)
    if s.wd:
        p.constant(s.wd_alpha, 'alpha', lo=0.1, hi=5)
    p.constant(G, 'g', lo=1, hi=20)
    p.constant(s.lf, 'lf', lo=0, hi=2)
    p.constant(s.options.norm_smoother, 'smooth', lo=0, hi=1)


def coriolis(kw):
    def run(h):
        s = swe(**kw).use('coriolis')
        with s.point(h, 'dx') as p:
            common(h, s, p)
            test_is_velocity(p, s)
            h.prove_eq(p.integral(s.term('CoriolisTerm')), 0, 'Coriolis does no work')
    return run


def drag(kw, term, fields):
    def run(h):
        s = swe(**kw).use(*fields)
        with s.point(h, 'dx') as p:
            common(h, s, p)
            positive(h, s, p, *[f for f in fields if f != 'uv_bottom'])
            if 'nikuradse_bed_roughness' in fields:
                h.assume(p.value(s.fields['nikuradse_bed_roughness']) > 0)
            if fields == ('bottom_drag', 'uv_bottom'):
                p.set(s.fields['uv_bottom'], None, p.vals(s.uv))
            test_is_velocity(p, s)
            h.prove_le(p.integral(s.term(term)), 0, 'drag removes energy')
    return run


def farm_drag(kind, upwind):
    def run(h):
        s = swe(family='dg-dg', nonlinear=True)
        o = DiscreteTidalTurbineFarmOptions()
        o.turbine_type = kind
        o.upwind_correction = upwind
        if kind == 'constant':
            o.turbine_options.thrust_coefficient = 0.8
        else:
            o.turbine_options.thrust_coefficients = [0.0, 0.8, 0.3]
            o.turbine_options.thrust_speeds = [1.0, 2.0, 4.0]
        o.turbine_options.diameter = 16.
        dens = fd.Function(s.P1, name='density')
        farm = turbines.TidalTurbineFarm(dens, fd.dx(domain=s.mesh, degree=3), o)
        t = shallowwater_eq.TurbineDragTerm(fd.TestFunctions(s.V)[0], s.U, s.H, s.depth, s.options, [farm])
        with s.point(h, 'dx') as p:
            p.coeff(dens, 'density')
            common(h, s, p)
            h.assume(p.value(s.bath) + p.value(s.eta_old) >= 20)
            h.assume(p.value(dens) >= 0)
            test_is_velocity(p, s)
            uv, eta = fd.split(s.sol)
            uvo, etao = fd.split(s.old)
            F = s._sub(t.residual(uv, eta, uvo, etao, s.fields, s.fields, {}))
            h.prove_le(p.integral(F), 0, 'turbine drag removes energy')
    return run


def boundary_drag(kw, tags):
    def run(h):
        s = swe(**kw)
        with s.point(h, 'ds', 1) as p:
            common(h, s, p)
            vals = bnd_functions(s, p, tags)
            h.assume(vals['drag'] >= 0)
            test_is_velocity(p, s)
            h.prove_le(p.integral(s.term('BoundaryDragTerm')), 0, 'boundary drag removes energy')
    return run


def lf_facet(kw, kind):
    def run(h):
        s = swe(**kw)
        with s.point(h, kind, 1 if kind == 'ds' else None) as p:
            common(h, s, p)
            test_is_velocity(p, s)
            F = s.term('HorizontalAdvectionTerm')
            v = p.integral(F)
        with s.point(h, kind, 1 if kind == 'ds' else None) as p:
            common(h, s, p)
            p.setconst(s.lf, 0)
            test_is_velocity(p, s)
            v0 = p.integral(F)
            h.prove_le(v - v0, 0, 'Lax-Friedrichs flux removes energy', tol=0)
    return run


def visc_sym(kw, kind):
    def run(h):
        s = swe(**kw).use('viscosity_h')
        with s.point(h, kind) as p:
            common(h, s, p)
            F = s.term('HorizontalViscosityTerm')
            a = p.integral(F)
            uv = {sd: (p.vals(s.uv, sd), p.grads(s.uv, sd)) for sd in p.sides}
            w = {sd: (p.vals(s.wu, sd), p.grads(s.wu, sd)) for sd in p.sides}
        with s.point(h, kind) as q:
            common(h, s, q)
            for sd in q.sides:
                q.set(s.uv, sd, *w[sd])
                q.set(s.wu, sd, *uv[sd])
            b = q.integral(F)
            h.prove_eq(a, b, 'viscosity is symmetric', scale=1e4)
    return run


def visc_sign(kw, kind):
    def run(h):
        s = swe(**kw).use('viscosity_h')
        with s.point(h, kind) as p:
            common(h, s, p)
            positive(h, s, p, 'viscosity_h')
            if kind == 'dS':
                for sd in p.sides:
                    p.set(s.uv, sd, None, 0)
            test_is_velocity(p, s)
            h.prove_le(p.integral(s.term('HorizontalViscosityTerm')), 0,
                       'viscous dissipation' if kind == 'dx' else 'jump penalty removes energy')
    return run


def waves(kw, kind, drag=False):
    """w = (H u, g eta): the energy the facet adds, including the boundary flux of the two cells, is never positive"""
    def run(h):
        s = swe(nonlinear=False, **kw)
        with s.point(h, kind, 1 if kind == 'ds' else None) as p:
            common(h, s, p)
            if drag:
                s.bnd = {1: {'drag': fd.Constant(0.1)}}
            g = p.consts[id(G)][1]
            H = p.value(s.bath, p.sides[0])
            for sd in p.sides:
                p.set(s.bath, sd, H, 0)
            test_is_velocity(p, s, H)
            for sd in p.sides:
                p.set(s.we, sd, [g*p.value(s.eta, sd)], [[g*p.grad(s.eta, sd, 0, j) for j in range(2)]])
            F = (s.term('ExternalPressureGradientTerm'), s.term('HUDivTerm'))
            v = 0
            for f in F:
                v = v + p.integral(f)
            by_parts = kw['family'] != 'dg-cg'
            if kind == 'dx':
                dv = 0
                for j in range(2):
                    dv = dv + g*H*(p.value(s.eta)*p.grad(s.uv, None, j, j) + p.grad(s.eta, None, 0, j)*p.value(s.uv, None, j))
                h.prove_eq(v, dv if by_parts else 0, 'cell part is an exact divergence', scale=1e4)
                return
            if by_parts:
                for sd, sg in ((('+', 1), ('-', -1)) if kind == 'dS' else ((None, 1),)):
                    for j in range(2):
                        v = v + sg*g*H*p.value(s.eta, sd)*p.value(s.uv, sd, j)*p.n[j]
            h.prove_le(v, 0, 'facet never adds wave energy', tol=0 if h.symbolic else 1e-6)
    return run


BASE = [dict(family='dg-dg', nonlinear=True, wd=False), dict(family='dg-dg', nonlinear=True, wd=True),
        dict(family='rt-dg', nonlinear=True, wd=False), dict(family='dg-cg', nonlinear=False, wd=False)]
for b in BASE:
    t = f"{b['family']},{'nl' if b['nonlinear'] else 'lin'}{',wd' if b['wd'] else ''}"
    ck.harness(f'coriolis[{t}]', coriolis(b), validate=b is BASE[0])
    for term, f in (('QuadraticDragTerm', ('manning_drag_coefficient',)), ('QuadraticDragTerm', ('quadratic_drag_coefficient',)),
                    ('QuadraticDragTerm', ('nikuradse_bed_roughness',)), ('LinearDragTerm', ('linear_drag_coefficient',)),
                    ('BottomDrag3DTerm', ('bottom_drag', 'uv_bottom'))):
        ck.harness(f'drag[{t}|{f[0]}]', drag(b, term, f), validate=b is BASE[0])
    for tags in (('drag',), ('elev', 'drag'), ('uv', 'drag')):
        ck.harness(f'boundary-drag[{t}|{"+".join(tags)}]', boundary_drag(b, tags), validate=b is BASE[0])
    for kind in ('dS', 'ds'):
        if b['nonlinear']:
            ck.harness(f'lax-friedrichs[{t},{kind}]', lf_facet(b, kind), validate=b is BASE[0])
for kind in ('constant', 'table'):
    for up in (False, True):
        ck.harness(f'turbine-drag[{kind},{up}]', farm_drag(kind, up), validate=True)
for fam in ('dg-dg', 'rt-dg', 'dg-cg'):
    for gd in (False, True):
        kw = dict(family=fam, nonlinear=True, wd=False, use_grad_div_viscosity_term=gd, use_grad_depth_viscosity_term=False)
        for kind in ('dx', 'dS'):
            ck.harness(f'viscosity-symmetric[{fam},{gd},{kind}]', visc_sym(kw, kind), validate=fam == 'dg-dg')
            ck.harness(f'viscosity-sign[{fam},{gd},{kind}]', visc_sign(kw, kind), validate=fam == 'dg-dg')
for fam in ('dg-dg', 'rt-dg', 'bdm-dg', 'dg-cg'):
    for kind in ('dx', 'dS', 'ds'):
        if fam == 'dg-cg' and kind == 'dS':
            continue        # no facet terms at all for a continuous elevation
        ck.harness(f'waves[{fam},{kind}]', waves(dict(family=fam), kind), validate=fam == 'dg-dg')
    ck.harness(f'waves[{fam},ds,drag]', waves(dict(family=fam), 'ds', True), validate=False)
ck.finish()
