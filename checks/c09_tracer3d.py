"""C09: 3D tracer equation: conservation, consistency, upwinding, boundary data, constancy with the discrete continuity equation"""
from three_common import *
import types
from firedrake import Dx
import thetis.tracer_eq as te
import thetis.utility3d as u3

ck = Check('C09', '3D tracer')
TECHNIQUE = 'symbolic execution of the real 3D tracer residuals (and of the real vertical velocity problem) at an arbitrary integration' \
            ' point of every kind of an extruded mesh; z3 decides the identities and signs for all values'
ck.encoded('tracer_eq.TracerEquation', 'tracer_eq.HorizontalAdvectionTerm.residual', 'tracer_eq.VerticalAdvectionTerm.residual',
           'tracer_eq.HorizontalDiffusionTerm.residual', 'tracer_eq.VerticalDiffusionTerm.residual', 'tracer_eq.SourceTerm.residual',
           'tracer_eq.TracerTerm.get_bnd_functions', 'utility3d.VerticalVelocitySolver (weak form)')
ck.bound('one point of a cell, of a vertical and a horizontal interior facet, of the surface, the bottom and a lateral boundary;'
         ' arbitrary facet slopes; smooth state = arbitrary value, gradient, Hessian; facet properties: arbitrary discontinuous state;'
         ' triangular prisms, degree 1 and 2')
ck.assumed('horizontal velocity fields have a zero third component at the surface and the bottom',
           'horizontal diffusion lets tracer through sloping surface/bottom faces (documented in the source)')


class T3:
    def __init__(self, deg=1, lf=True, symm=True, mesh_velocity=True, dav=True):
        m = self.mesh = mesh3()
        self.deg = deg
        W, V, P1 = space(deg), space(deg, True), space(1, fam='CG')
        self.W = W
        for n in ('c', 'cold', 'w', 'elev', 'S'):
            setattr(self, n, fd.Function(W, name=n))
        for n in ('uv', 'dav', 'vel'):
            setattr(self, n, fd.Function(V, name=n))
        for n in ('wm', 'mu', 'nu', 'bath'):
            setattr(self, n, fd.Function({'bath': P1, 'wm': space(deg, fam='CG')}.get(n, W), name=n))
        self.lf = fd.Constant(1.0)
        self.sh, self.sv = fd.Constant(1.5), fd.Constant(2.5)
        self.use_dav, self.use_wm = dav, mesh_velocity
        self.eq = te.TracerEquation(W, bathymetry=self.bath, v_elem_size=None, h_elem_size=None, use_symmetric_surf_bnd=symm,
                                    use_lax_friedrichs=lf, sipg_factor=self.sh, sipg_factor_vertical=self.sv)
        self.test = self.eq.test
        self.bnd = {}
        f = self.base = {'uv_3d': self.uv, 'uv_depth_av': self.dav if dav else None, 'elev_3d': self.elev, 'w': self.vel,
                         'w_mesh': self.wm if mesh_velocity else None, 'lax_friedrichs_tracer_scaling_factor': self.lf}
        self.fields = dict(f)

    def use(self, *n):
        self.fields = dict(self.base)
        self.bnd = {}
        for k in n:
            self.fields[{'mu': 'diffusivity_h', 'nu': 'diffusivity_v', 'S': 'source'}[k]] = getattr(self, k)
        return self

    def F(self, label='all'):
        return self.eq.residual(label, self.c, self.cold, self.fields, self.fields, self.bnd)

    def term(self, name):
        return self.eq.terms[name].residual(self.c, self.cold, self.fields, self.fields, self.bnd)

    def total(self):
        return self.uv + self.dav if self.use_dav else self.uv

    def wrel(self):
        return self.vel[2] - self.wm if self.use_wm else self.vel[2]

    def point(self, h, kind, subdomain=None):
        p = Point(h, self.mesh, kind, subdomain)
        for n in ('c', 'cold', 'w', 'elev', 'S', 'uv', 'dav', 'vel', 'wm', 'mu', 'nu', 'bath'):
            p.coeff(getattr(self, n), n)
        p.lf = p.constant(self.lf, 'lf', lo=0, hi=2)
        p.sh = p.constant(self.sh, 'sh', lo=1, hi=10)
        p.sv = p.constant(self.sv, 'sv', lo=1, hi=10)
        for sd in p.sides:
            h.assume(p.value(self.mu, sd) >= 0)
            h.assume(p.value(self.nu, sd) >= 0)
        if kind in ('ds_t', 'ds_b', 'ds_v', 'dS_v'):
            for f in (self.uv, self.dav):
                for sd in p.sides:
                    p.set(f, sd, [p.value(f, sd, 0), p.value(f, sd, 1), 0])
        return p


_t = {}


def t3(**kw):
    k = tuple(sorted(kw.items()))
    if k not in _t:
        _t[k] = T3(**kw)
    return _t[k].use()


def strong(t):
    U, T, w = t.total(), t.c, t.wrel()
    R = -(Dx(U[0]*T, 0) + Dx(U[1]*T, 1) + T*Dx(U[2], 2) + U[2]*Dx(T, 2)) - Dx(w*T, 2)
    R = R + Dx(t.mu*Dx(T, 0), 0) + Dx(t.mu*Dx(T, 1), 1) + Dx(t.nu*Dx(T, 2), 2) + t.S
    return R


def cell(kw):
    def run(h):
        t = t3(deg=2, **kw).use('mu', 'nu', 'S')
        with t.point(h, 'dx') as p:
            (S, B), = strong_and_flux(t.F(), t.test, fd.SpatialCoordinate(t.mesh), 3)
            h.prove_eq(p.expr(S), p.expr(strong(t)), 'the weak form is the advection-diffusion equation', scale=1e3)
    return run


def facet(kw, kind):
    def run(h):
        t = t3(deg=2, **kw).use('mu', 'nu', 'S')
        with t.point(h, kind) as p:
            for f in (t.c, t.uv, t.dav, t.vel, t.wm, t.mu, t.nu, t.S):
                p.same_on_both_sides(f)
            h.prove_eq(left_over(p, t.F(), t.test, t.w), 0, 'no left-over on an interior facet', scale=1e4)
    return run


def hn(p, t, sd=None, full=False):
    """normal volume flux through the facet"""
    U = [p.value(t.uv, sd, j) + (p.value(t.dav, sd, j) if t.use_dav else 0) for j in range(3)]
    return sum(U[j]*p.n[j] for j in range(3 if full else 2))


def wn(p, t, sd=None):
    return (p.value(t.vel, sd, 2) - (p.value(t.wm, sd) if t.use_wm else 0))*p.n[2]


def ends(kw, kind):
    """surface and bottom: what the form prescribes there"""
    def run(h):
        t = t3(deg=2, **kw).use('mu', 'nu', 'S')
        with t.point(h, kind) as p:
            w, c = p.value(t.w), p.value(t.c)
            dif = -p.value(t.nu)*p.grad(t.c, None, 0, 2)*p.n[2]*w
            if kind == 'ds_t':
                want = dif + (0 if kw.get('symm', True) else hn(p, t)*c*w)
                h.prove_eq(left_over(p, t.F(), t.test, t.w), want, 'surface: free advective flux, no vertical diffusive flux', scale=1e4)
            else:
                want = dif + c*w*(hn(p, t) + wn(p, t))
                h.prove_eq(left_over(p, t.F(), t.test, t.w), want, 'bottom: impermeable', scale=1e4)
    return run


def closed(kw):
    def run(h):
        t = t3(deg=2, **kw).use('mu', 'nu', 'S')
        with t.point(h, 'ds_v', 1) as p:
            r = p.integral(t.F(), {t.test: t.w})
            h.prove_eq(r, 0, 'nothing passes a closed lateral boundary')
            h.prove_eq(left_over(p, t.F(), t.test, t.w), p.value(t.w)*(p.value(t.c)*hn(p, t) - p.value(t.mu)*sum(
                p.grad(t.c, None, 0, j)*p.n[j] for j in range(2))), 'closed boundary = zero normal velocity and diffusive flux', scale=1e4)
    return run


def conserve(kw, kind):
    def run(h):
        t = t3(**kw).use('mu', 'nu')
        with t.point(h, kind) as p:
            p.set(t.w, None, [1], 0)
            if kind in ('ds_t', 'ds_b'):
                p.set(t.mu, None, [0], 0)
            if kind == 'ds_t':
                h.assume_eq(hn(p, t) + wn(p, t), 0)
            h.prove_eq(p.integral(t.F(), {t.test: t.w}), 0, f'{kind}: nothing gained or lost', scale=1e3)
    return run


def source_sum(kind):
    def run(h):
        t = t3().use('mu', 'nu', 'S')
        with t.point(h, kind) as p:
            a = p.integral(t.F(), {t.test: t.w})
            b = sum((p.integral(G, {t.test: t.w}) if is_form(G) else G) for G in (t.F('source'), t.F('explicit')))
            h.prove_eq(a, b, 'explicit and source parts add up to the equation', scale=1e3)
            h.prove_eq(p.integral(t.F('source'), {t.test: t.w}), p.value(t.S)*p.value(t.w) if kind == 'dx' else 0,
                       'the source adds exactly itself', scale=1e3)
            for lab in ('implicit', 'nonlinear'):
                G = t.F(lab)
                h.prove(not is_form(G), f'no {lab} part')
    return run


def upwind(kw, kind, which):
    def run(h):
        t = t3(lf=False, **kw)
        with t.point(h, kind) as p:
            r = p.integral(t.term(which), {t.test: t.w})
            if which.startswith('H'):
                tot = {sd: hn(p, t, sd, full=True) for sd in '+-'}
                drv = (hn(p, t, '+') + hn(p, t, '-'))/2
            else:
                tot = {sd: wn(p, t, sd) for sd in '+-'}
                drv = (tot['+'] + tot['-'])/2
            if not kw.get('tilt', False) and kind == 'dS_h':
                pass
            flux = (tot['+'] + tot['-'])/2
            h.assume(drv != 0)
            up = '+' if drv > 0 else '-'
            h.prove_eq(r, -p.value(t.c, up)*flux*(p.value(t.w, '+') - p.value(t.w, '-')), 'facet value comes from upstream', scale=1e4)
    return run


def orient(kw):
    def run(h):
        t = t3(**kw).use('mu', 'nu')
        with t.point(h, 'dS_v') as p:
            a = p.integral(t.F(), {t.test: t.w})
            q = p.swapped()
            if not h.symbolic:
                p.close()
            b = q.integral(t.F(), {t.test: t.w})
            h.prove_eq(a, b, 'independent of the numbering of the two cells', scale=1e4)
    return run


def lf(kw, kind):
    def run(h):
        a, b = t3(lf=True, **kw), t3(lf=False, **kw)
        r = []
        for t in (a, b):
            with t.point(h, kind) as p:
                for sd in p.sides:
                    p.set(t.w, sd, [p.value(t.c, sd)])
                r.append([p.integral(t.term(n), {t.test: t.w}) if p.kind == 'dS_h' or n.startswith('H') else 0
                          for n in ('HorizontalAdvectionTerm', 'VerticalAdvectionTerm')])
                J = p.value(t.c, '+') - p.value(t.c, '-')
                un = (hn(p, t, '+') + hn(p, t, '-'))/2
                ww = (wn(p, t, '+') + wn(p, t, '-'))/2
                lfv = p.lf
        for i, s in ((0, un), (1, ww)):
            d = r[0][i] - r[1][i]
            h.prove_le(d, 0, 'Lax-Friedrichs only removes variance', tol=0 if h.symbolic else 1e-3)
            if kind == 'dS_h' or i == 0:
                h.prove_eq(d, -lfv*abs(s)*J*J/2, 'proportional to the speed and the jump', scale=1e4)
    return run


def diffusion(deg, which, kind):
    coef = 'mu' if which[0] == 'H' else 'nu'

    def run(h):
        t = t3(deg=deg).use('mu', 'nu')
        m = getattr(t, coef)
        ax = (0, 1) if which[0] == 'H' else (2,)
        with t.point(h, kind) as p:
            a = p.integral(t.term(which), {t.test: t.w})
            if kind == 'dx':
                g = sum(p.grad(t.c, None, 0, j)*p.grad(t.w, None, 0, j) for j in ax)
                h.prove_eq(a, -p.value(m)*g, 'symmetric cell term', scale=1e4)
                return
            if which[0] == 'V' and kind != 'dS_h':
                h.prove_eq(a, 0, 'vertical diffusion does not act on ' + kind)
                return
            F = fd.replace(t.term(which), {t.test: t.w})
            b = p.integral(fd.replace(fd.replace(fd.replace(F, {t.c: t.cold}), {t.w: t.c}), {t.cold: t.w}))
            h.prove_eq(a, b, 'symmetric facet term', scale=1e4)
    return run


def penalty(deg, which, kind):
    coef = 'mu' if which[0] == 'H' else 'nu'

    def run(h):
        t = t3(deg=deg).use('mu', 'nu')
        m = getattr(t, coef)
        with t.point(h, kind) as p:
            for sd in p.sides:
                v = p.value(t.c, sd)
                p.set(t.c, sd, [v], 0)
                p.set(t.w, sd, [v], 0)
            r = p.integral(t.term(which), {t.test: t.w})
            j = p.value(t.c, '+') - p.value(t.c, '-')
            mu = (p.value(m, '+') + p.value(m, '-'))/2
            nn = p.n[0]*p.n[0] + p.n[1]*p.n[1] if which[0] == 'H' else p.n[2]*p.n[2]
            h.prove_le(r, 0, 'the jump penalty only removes variance', tol=0 if h.symbolic else 1e-3)
            cp = (deg + 1)*(deg + 2)//2 if which[0] == 'H' else (deg + 1)**2
            for sd in p.sides:
                il = p.expr(fd.FacetArea(t.mesh)/fd.CellVolume(t.mesh), sd)
                h.prove_le(r, -(p.sh if which[0] == 'H' else p.sv)*cp*il*mu*nn*j*j, f'penalty at least the coercivity scale {sd}',
                           tol=0 if h.symbolic else 1e-3)
    return run


# -- boundary data ------------------------------------------------------------------------------------------------------------------
COMBOS = [('value',), ('uv',), ('un',), ('flux',), ('elev',), ('value', 'uv'), ('value', 'un'), ('value', 'flux'), ('elev', 'flux'),
          ('value', 'elev', 'flux')]


def data(h, t, p, tags, match=False, bid=1):
    d, v = {}, {}
    U = [p.value(t.uv, None, j) + (p.value(t.dav, None, j) if t.use_dav else 0) for j in range(3)]
    L = frac(t.mesh.boundary_len[bid]) if h.symbolic else float(t.mesh.boundary_len[bid])
    H = p.value(t.bath) + p.value(t.elev)
    for g in tags:
        d[g] = fd.Constant((0.0, 0.0, 0.0)) if g == 'uv' else fd.Constant(0.0)
        if match and g != 'value':
            v[g] = {'uv': U, 'un': hn(p, t), 'flux': hn(p, t)*H*L, 'elev': p.value(t.elev)}[g]
            p.setconst(d[g], v[g])
        elif match:
            d[g], v[g] = t.c, p.value(t.c)
        elif g == 'uv':
            a = [h.real(f'bc.uv{j}', lo=-1000, hi=1000) for j in range(2)] + [0]
            p.setconst(d[g], a)
            v[g] = a
        else:
            v[g] = p.constant(d[g], f'bc.{g}', lo=-10000, hi=10000)
    t.bnd = {bid: d}
    e = v.get('elev', p.value(t.elev))
    D = p.value(t.bath) + e
    h.assume(D >= Fr(1, 100))
    if 'uv' in v:
        ue = v['uv']
    elif 'flux' in v:
        ue = [v['flux']/(D*L)*n for n in p.n]
    elif 'un' in v:
        ue = [v['un']*n for n in p.n]
    else:
        ue = U
    return v.get('value', p.value(t.c)), ue, e, U


def mapping(tags):
    def run(h):
        t = t3()
        with t.point(h, 'ds_v', 1) as p:
            ce, ue, e, U = data(h, t, p, tags)
            got = t.eq.terms['HorizontalAdvectionTerm'].get_bnd_functions(t.c, t.total(), t.elev, 1, t.bnd)
            h.prove_eq(p.expr(got[0]), ce, 'external tracer', scale=10)
            for j in range(2):
                h.prove_eq(p.expr(got[1][j]), ue[j], f'external velocity {j}', scale=10)
            h.prove_eq(p.expr(got[2]), e, 'external elevation', scale=10)
    return run


def bnd_upwind(tags):
    def run(h):
        t = t3()
        with t.point(h, 'ds_v', 1) as p:
            ce, ue, e, U = data(h, t, p, tags)
            ci, w = p.value(t.c), p.value(t.w)
            r = p.integral(t.F(), {t.test: t.w})
            ui = hn(p, t)
            an = (ui + ue[0]*p.n[0] + ue[1]*p.n[1])/2
            h.assume(an != 0)
            if an > 0:
                h.prove_eq(r, -ci*ui*w, 'outflow carries the interior value', scale=1e3)
            else:
                h.prove_eq(r, -(ce*an + ci*(ui - an))*w, 'inflow carries the external value', scale=1e3)
    return run


def bnd_match(tags):
    def run(h):
        t = t3(deg=2)
        with t.point(h, 'ds_v', 1) as p:
            if 'un' in tags or 'flux' in tags:
                v = h.real('unv', lo=-100, hi=100)
                p.set(t.uv, None, [v*p.n[0], v*p.n[1], 0])
                p.set(t.dav, None, [0, 0, 0])
            data(h, t, p, tags, match=True)
            h.prove_eq(left_over(p, t.F(), t.test, t.w), 0, 'no left-over on a boundary with matching data', scale=1e4)
    return run


def others(kind, sub):
    def run(h):
        t = t3()
        t.bnd = {1: {'value': fd.Constant(3.0), 'un': fd.Constant(-1.0)}}
        F = t.F()
        t.bnd = {}
        G = t.F()
        with t.point(h, kind, sub) as p:
            h.prove_eq(p.integral(F, {t.test: t.w}), p.integral(G, {t.test: t.w}), f'{kind} {sub} unaffected', scale=1e3)
    return run


# -- constants and the discrete continuity equation -------------------------------------------------------------------------------------
def constancy(kind, open_bnd=False, deg=1, moving=False):
    """for a constant tracer the form is that constant times the discrete continuity equation that defines w (plus, on a
    moving mesh, times the growth of the volume)"""
    def run(h):
        t = t3(mesh_velocity=moving, deg=deg).use('mu', 'nu')
        bnd = {1: {}} if open_bnd else {}
        t.bnd = bnd
        solver = types.SimpleNamespace(solve=lambda: None)
        with patched((u3, 'LinearVariationalSolver', lambda *a, **k: solver)):
            vs = u3.VerticalVelocitySolver(t.vel, t.total(), t.bath, bnd)
        cont = vs.prob.F
        test = cont.arguments()[0]
        tv = fd.Function(space(deg, True), name='tv')
        with t.point(h, kind, 1 if kind == 'ds_v' else None) as p:
            k = h.real('const', lo=-1000, hi=1000)
            p.set(t.c, None, [k], 0)
            p.coeff(tv, 'tv')
            for sd in p.sides:
                p.set(tv, sd, [0, 0, p.value(t.w, sd)], [[0, 0, 0], [0, 0, 0], [p.grad(t.w, sd, 0, j) for j in range(3)]])
            a = p.integral(t.F(), {t.test: t.w})
            b = p.integral(cont, {test: tv})
            if moving:      # k * integral of w * d(w_mesh)/dz, by parts; w_mesh is continuous and zero at the bottom
                wm = None if p.interior else p.value(t.wm)
                if kind == 'dx':
                    a = a + k*wm*p.grad(t.w, None, 0, 2)
                elif kind == 'dS_h':
                    a = a - k*p.value(t.wm, '+')*p.n[2]*(p.value(t.w, '+') - p.value(t.w, '-'))
                elif kind == 'ds_t':
                    a = a - k*wm*p.n[2]*p.value(t.w)
            h.prove_eq(a, -k*b, 'a constant tracer only changes where continuity is violated', scale=1e4)
    return run


for symm in (True, False):
    for lfx in (True, False):
        k = dict(symm=symm, lf=lfx)
        n = f'symm={int(symm)},lf={int(lfx)}'
        ck.harness(f'ends[top,{n}]', ends(k, 'ds_t'), validate=False)
    ck.harness(f'ends[bottom,{n}]', ends(k, 'ds_b'), validate=False)
for dav in (True, False):
    for wm in (True, False):
        k = dict(dav=dav, mesh_velocity=wm)
        n = f'dav={int(dav)},wmesh={int(wm)}'
        v = dav and wm
        ck.harness(f'cell[{n}]', cell(k), validate=ck.thorough)
        for kind in INNER:
            ck.harness(f'facet[{kind},{n}]', facet(k, kind), validate=v and ck.thorough)
            ck.harness(f'upwind[{kind},h,{n}]', upwind(k, kind, 'HorizontalAdvectionTerm'), validate=v, expect_paths=2)
        ck.harness(f'upwind[dS_h,v,{n}]', upwind(k, 'dS_h', 'VerticalAdvectionTerm'), validate=v, expect_paths=2)
        for kind in ('dx', 'ds_t', 'ds_b') + INNER:
            ck.harness(f'conserve[{kind},{n}]', conserve(k, kind), validate=v and kind in ('ds_t', 'ds_b'))
        ck.harness(f'closed[{n}]', closed(k), validate=v and ck.thorough)
ck.harness('facet[lf=0]', facet(dict(lf=False), 'dS_v'), validate=False)
for kind in ('dx', 'dS_v', 'dS_h', 'ds_t', 'ds_b', 'ds_v'):
    ck.harness(f'source[{kind}]', source_sum(kind), validate=kind == 'dx')
for lfx in (True, False):
    ck.harness(f'orientation[lf={int(lfx)}]', orient(dict(lf=lfx)), validate=lfx)
for kind in INNER:
    ck.harness(f'lf[{kind}]', lf({}, kind), validate=True)
for deg in (1, 2):
    for kind in ('dx', 'dS_v', 'dS_h'):
        ck.harness(f'diffusion[H,{kind},{deg}]', diffusion(deg, 'HorizontalDiffusionTerm', kind), validate=deg == 1)
        if kind != 'dx':
            ck.harness(f'penalty[H,{kind},{deg}]', penalty(deg, 'HorizontalDiffusionTerm', kind), validate=False)
    for kind in ('dx', 'dS_v', 'dS_h', 'ds_v', 'ds_t', 'ds_b'):
        ck.harness(f'diffusion[V,{kind},{deg}]', diffusion(deg, 'VerticalDiffusionTerm', kind), validate=deg == 1 and kind == 'dS_h')
    ck.harness(f'penalty[V,dS_h,{deg}]', penalty(deg, 'VerticalDiffusionTerm', 'dS_h'), validate=deg == 1)
for tags in COMBOS:
    n = '+'.join(tags)
    ck.harness(f'mapping[{n}]', mapping(tags), validate=tags in (('value', 'flux'),))
    ck.harness(f'bnd-upwind[{n}]', bnd_upwind(tags), validate=tags == ('value', 'un'), expect_paths=2)
    if 'value' not in tags or len(tags) > 1:
        ck.harness(f'bnd-match[{n}]', bnd_match(tags), validate=tags == ('un',))
ck.harness('bnd-match[]', bnd_match(()), validate=False)
for kind, sub in (('ds_v', 2), ('ds_v', 3), ('ds_v', 4), ('ds_t', None), ('ds_b', None)):
    ck.harness(f'others[{kind},{sub}]', others(kind, sub), validate=False)
for kind in ('dx', 'dS_v', 'dS_h', 'ds_t', 'ds_b', 'ds_v'):
    ck.harness(f'constancy[{kind}]', constancy(kind), validate=kind in INNER)
    ck.harness(f'constancy[{kind},moving]', constancy(kind, moving=True), validate=False)
ck.harness('constancy[ds_v,open]', constancy('ds_v', True), validate=True)
ck.finish()
