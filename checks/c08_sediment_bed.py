"""C08: sediment picked up and deposited by the water is what the bed loses and gains; SedimentModel state is physical"""
from tracer_common import *
from symx.symfd import SymFD
from thetis import sediment_model as smod
ck = Check('C08', 'sediment-bed')
TECHNIQUE = 'symbolic execution of the real weak forms and of SedimentModel, z3 decides every obligation; counterexamples replayed'
ck.encoded('sediment_eq_2d.SedimentErosionTerm/SedimentDepositionTerm.residual', 'exner_eq.ExnerEquation',
           'exner_eq.ExnerSourceTerm/ExnerBedloadTerm/ExnerSedimentSlideTerm.residual',
           'sediment_model.SedimentModel.__init__/update/get_*', 'sediment_model.CorrectiveVelocityFactor')
ck.bound('one integration point of each type, arbitrary values and gradients (exchange with the bed, bedload fluxes, slide)',
         'SedimentModel: spatially uniform velocity and elevation, bathymetry with a uniform gradient; grain sizes 5e-5, 2e-4'
         ' and 2e-3 m (one per settling velocity branch); depth 0.05..100 m, speed 0.001..10 m/s',
         'continuous bathymetry (the solver refuses any other space with the Exner equation)')
ck.assumed('ln and fractional powers are uninterpreted monotone functions',
           'flow speed is not zero (the direction of the bedload is undefined in still water)')


class Ex:
    """sediment equation and Exner equation sharing one sediment model"""

    def __init__(self, conservative, wd=False, slide=False):
        self.t = tr(kind='sediment', conservative=conservative, wd=wd)
        t = self.t
        self.B = fd.FunctionSpace(t.mesh, 'CG', 1)
        self.eq = exner_eq.ExnerEquation(self.B, t.depth, t.model, conservative)
        self.test = fd.TestFunction(self.B)
        self.zb = fd.Function(self.B, name='zb')
        self.we = fd.Function(self.B, name='we')

    def fields(self, morfac, por):
        return {'sediment': self.t.c, 'morfac': morfac, 'porosity': por, 'elev_2d': self.t.eta, 'uv_2d': self.t.uv}

    def residual(self, morfac, por, bnd=None, label='all'):
        f = self.fields(morfac, por)
        F = self.eq.residual(label, self.zb, self.zb, f, f, bnd)
        return fd.replace(F, {self.test: self.we}) if hasattr(F, 'integrals') else F


_ex = {}


def ex(**kw):
    k = tuple(sorted(kw.items()))
    if k not in _ex:
        _ex[k] = Ex(**kw)
    x = _ex[k]
    x.t.bnd = {}
    return x


def keep_sym(h):
    """the coefficient morfac/(1-porosity) stays symbolic: Constant() of a symbolic number is the number"""
    from contextlib import nullcontext
    if not h.symbolic:
        return nullcontext()
    return patched((exner_eq, 'Constant', lambda v=0.0: v if is_sym(v) else fd.Constant(v)))


def factor(h, x, p):
    m, po = fd.Constant(1.0), fd.Constant(0.4)
    vm, vp = p.constant(m, 'morfac', lo=1, hi=100), p.constant(po, 'porosity', lo=0, hi=0.9)
    return m, po, vm, vp


def exchange(conservative, wd):
    def run(h):
        x = ex(conservative=conservative, wd=wd)
        t = x.t
        with t.point(h, 'dx') as p:
            p.coeff(x.zb, 'zb')
            p.coeff(x.we, 'we')
            ones(p, t.w)
            ones(p, x.we)
            vm, vp = h.real('morfac', lo=1, hi=100), h.real('porosity', lo=0, hi=0.9)
            c = fd.Constant(1.0)
            fac = vm/(1 - vp)
            if h.symbolic:
                # Constant(fac) of the real code is given the symbolic value
                p.setconst(c, fac)
                with patched((exner_eq, 'Constant', lambda v=0.0: c)):
                    bed = p.integral(x.residual(vm, vp, label='source'))
            else:
                bed = p.integral(x.residual(vm, vp, label='source'))
            water = p.integral(t.term('SedimentErosionTerm')) + p.integral(t.term('SedimentDepositionTerm'))
            H = p.expr(t.H())
            # sediment concentration c: storage H dc/dt;  depth integrated: storage dc/dt
            gain = water if conservative else water*H
            h.prove_eq(bed, fac*gain, 'the bed is lowered by what the water gains')
            ero, dep, cc = p.value(t.model.ero), p.value(t.model.dep), p.value(t.c)
            doc = ero - (dep*cc/H if conservative else dep*cc)
            h.prove_eq(gain, doc, 'erosion minus deposition')
    return run


for cons in (False, True):
    for wd in (False, True):
        ck.harness(f'exchange[{"depth-integrated" if cons else "depth-averaged"}{",wd" if wd else ""}]', exchange(cons, wd))


def bedload(part, bnd, closed):
    def run(h):
        x = ex(conservative=False)
        t = x.t
        with t.point(h, 'dx' if part == 'cell' else 'ds', None if part == 'cell' else 1) as p:
            p.coeff(x.zb, 'zb')
            p.coeff(x.we, 'we')
            vm, vp = h.real('morfac', lo=1, hi=100), h.real('porosity', lo=0, hi=0.9)
            fac = vm/(1 - vp)
            c = fd.Constant(1.0)
            b = {1: bnd()} if bnd else None
            if h.symbolic:
                p.setconst(c, fac)
                with patched((exner_eq, 'Constant', lambda v=0.0: c)):
                    F = x.residual(vm, vp, b, label='implicit')
            else:
                F = x.residual(vm, vp, b, label='implicit')
            v = p.integral(F)
            q = [p.value(t.model.qbx), p.value(t.model.qby)]
            w = p.value(x.we)
            if part == 'cell':
                # d(bathymetry)/dt = fac div(Q), integrated by parts
                g = [p.grad(x.we, 0, None, i) if False else p.expr(x.we.dx(i)) for i in range(2)]
                h.prove_eq(v, -fac*(q[0]*g[0] + q[1]*g[1]), 'bed level change is the divergence of the bedload transport')
            else:
                ref = 0 if closed else fac*(q[0]*p.n[0] + q[1]*p.n[1])*w
                h.prove_eq(v, ref, 'no bedload through a closed boundary' if closed
                           else 'bedload leaves through an open boundary')
    return run


C = fd.Constant
ck.harness('bedload-cell', bedload('cell', None, False))
for name, b, closed in (
        ('no-data', None, True), ('elev', lambda: {'elev': C(0.0)}, False), ('elev1', lambda: {'elev': C(1.5)}, False),
        ('un', lambda: {'un': C(0.3)}, False), ('un0', lambda: {'un': C(0.0)}, True),
        ('flux', lambda: {'flux': C(-3.0)}, False), ('flux0', lambda: {'flux': C(0.0)}, True),
        ('uv', lambda: {'uv': C((0.1, 0.0))}, False), ('uv0', lambda: {'uv': C((0.0, 0.0))}, True),
        ('uvy', lambda: {'uv': C((0.0, -0.2))}, False),
        ('elev-un', lambda: {'elev': C(0.0), 'un': C(0.1)}, False),
        ('elev-uv0', lambda: {'elev': C(0.3), 'uv': C((0.0, 0.0))}, True),
        ('elev-flux0', lambda: {'elev': C(0.3), 'flux': C(0.0)}, True)):
    ck.harness(f'bedload-boundary[{name}]', bedload('ds', b, closed), validate=name in ('elev', 'un0'))


# ---------------------------------------------------------------------------------------------------------------------
# SedimentModel
SIZES = {'fine': 5e-5, 'sand': 2e-4, 'gravel': 2e-3}


class St:
    def __init__(self):
        m = self.mesh = mesh2d()
        self.U = fd.VectorFunctionSpace(m, 'DG', 1)
        self.E = fd.FunctionSpace(m, 'DG', 1)
        self.P1 = fd.FunctionSpace(m, 'CG', 1)


_st = []


def st():
    if not _st:
        _st.append(St())
    return _st[0]


def options(size, **kw):
    o = topt.ModelOptions2d()
    o.horizontal_viscosity = fd.Constant(1e-6)
    s = o.sediment_model_options
    s.average_sediment_size = fd.Constant(SIZES[size])
    s.bed_reference_height = fd.Constant(kw.pop('ks', 0.025))
    for k in ('use_angle_correction', 'use_slope_mag_correction', 'use_secondary_current'):
        setattr(s, k, kw.get(k, False))
    for k, v in kw.items():
        setattr(s, k, v)
    return o


class State:
    """symbolic uniform flow state and the functions holding it"""

    def __init__(self, h, S, name, vals=None, grad=None):
        q = st()
        self.uv, self.eta, self.bath = fd.Function(q.U, name='uv'), fd.Function(q.E, name='eta'), fd.Function(q.P1, name='bath')
        self.depth = DepthExpression(self.bath)
        self.assign(h, S, vals or self.draw(h, name), grad)

    @staticmethod
    def draw(h, name):
        u, v = h.real(name + '.u', lo=-10, hi=10), h.real(name + '.v', lo=-10, hi=10)
        h.assume(u*u + v*v >= 1e-6)
        H, e = h.real(name + '.H', lo=0.05, hi=100), h.real(name + '.eta', lo=-5, hi=5)
        return u, v, e, H

    def assign(self, h, S, vals, grad=None):
        u, v, e, H = self.vals = vals
        S.set(self.uv, [u, v])
        S.set(self.eta, [e])
        S.set(self.bath, [H - e])
        if grad is not None:
            S.setgrad(self.bath, grad)

    def model(self, o):
        return smod.SedimentModel(o, st().mesh, self.uv, self.eta, self.depth)


def out(S, m, susp, bed, bath=None):
    d = {}
    q = st().mesh
    if susp:
        d['erosion'] = S.val(m.get_erosion_term(), q)
        d['deposition'] = S.val(m.get_deposition_coefficient(), q)
        d['equilibrium'] = S.val(m.get_equilibrium_tracer(), q)
        d['correction'] = S.val(m.get_advective_velocity_correction_factor(), q)
    if bed:
        qx, qy = m.get_bedload_term(bath)
        d['qbx'], d['qby'] = S.val(qx, q), S.val(qy, q)
    return d


def suspended(size, corr):
    def run(h):
        with SymFD(h, modules=(smod,)) as S:
            o = options(size, solve_suspended_sediment=True, use_advective_velocity_correction=corr)
            s = State(h, S, 's')
            m = s.model(o)
            d = out(S, m, True, False)
            h.prove_ge(d['erosion'], 0, 'erosion is not negative')
            h.prove_ge(d['deposition'], S.val(m.settling_velocity, st().mesh),
                       'near-bed concentration is at least the depth average')
            h.prove_ge(d['equilibrium'], 0, 'equilibrium concentration is not negative')
            h.prove_eq(d['deposition']*d['equilibrium'], d['erosion'], 'erosion balances deposition at equilibrium',
                       tol=1e-12)
            h.prove_ge(d['correction'], 0, 'velocity correction not negative')
            h.prove_le(d['correction'], 1, 'velocity correction at most one')
            if not corr:
                h.prove_eq(d['correction'], 1, 'no correction requested')
    return run


for size in SIZES:
    for corr in (True, False):
        ck.harness(f'suspended[{size}{",corr" if corr else ""}]', suspended(size, corr), check_domain=not corr)


def update(size, susp, bed, corr=True, secc=False, ang=False):
    def run(h):
        kw = dict(solve_suspended_sediment=susp, use_bedload=bed, use_advective_velocity_correction=corr,
                  use_secondary_current=secc, use_angle_correction=ang, use_slope_mag_correction=ang)
        with SymFD(h, modules=(smod,)) as S:
            a, b = State.draw(h, 'a'), State.draw(h, 'b')
            g = [h.real(f'g{i}', lo=-0.3, hi=0.3) for i in range(2)] if ang else None
            g0 = [h.real(f'h{i}', lo=-0.3, hi=0.3) for i in range(2)] if ang else None
            s = State(h, S, 's', a, g0)
            m = s.model(options(size, **kw))
            s.assign(h, S, b, g)
            m.update()
            z = State(h, S, 'z', b, g)
            fresh = z.model(options(size, **kw))
            d, e = out(S, m, susp, bed, s.bath), out(S, fresh, susp, bed, z.bath)
            for k in d:
                h.prove_eq(d[k], e[k], f'{k} after update() is that of the current flow')
            h.prove_eq(S.val(m.bed_stress, st().mesh), S.val(fresh.bed_stress, st().mesh), 'bed stress after update()')
    return run


for size in ('sand',):
    ck.harness(f'update[{size},suspended]', update(size, True, False))
    ck.harness(f'update[{size},suspended,no-corr]', update(size, True, False, corr=False))
    ck.harness(f'update[{size},bedload]', update(size, False, True))
    ck.harness(f'update[{size},bedload,no-corr]', update(size, False, True, corr=False))
    ck.harness(f'update[{size},both]', update(size, True, True))
    ck.harness(f'update[{size},bedload,slope,secondary]', update(size, False, True, secc=True, ang=True, corr=False), validate=False)


def direction(size, secc):
    def run(h):
        with SymFD(h, modules=(smod,)) as S:
            o = options(size, use_bedload=True, use_secondary_current=secc)
            s = State(h, S, 's')
            u, v = s.vals[:2]
            m = s.model(o)
            d = out(S, m, False, True, s.bath)
            h.prove_eq(d['qbx']*v, d['qby']*u, 'bedload parallel to the flow on a flat bed', tol=0 if h.symbolic else 1e-12)
            h.prove_ge(d['qbx']*u + d['qby']*v, 0, 'bedload not against the flow on a flat bed')
            tau = S.val(m.mu*0.5*m.rhow*m.qfc*m.unorm, st().mesh)
            if h.symbolic:
                h.assume(tau < S.val(m.taucr, st().mesh))
                h.prove_eq(d['qbx'], 0, 'no bedload below the critical stress')
                h.prove_eq(d['qby'], 0, 'no bedload below the critical stress (y)')
            elif tau < S.val(m.taucr, st().mesh):
                h.prove_eq(d['qbx'], 0, 'no bedload below the critical stress')
                h.prove_eq(d['qby'], 0, 'no bedload below the critical stress (y)')
    return run


for size in SIZES:
    ck.harness(f'bedload-direction[{size}]', direction(size, False), check_domain=True)


def mirror(kw):
    def run(h):
        with SymFD(h, modules=(smod,)) as S:
            a = State.draw(h, 'a')
            g = [h.real(f'g{i}', lo=-0.3, hi=0.3) for i in range(2)]
            zg = [h.real(f'zg{i}', lo=-0.3, hi=0.3) for i in range(2)]
            res = []
            for sw in (False, True):
                u, v, e, H = a
                s = State(h, S, 's', (v, u, e, H) if sw else a, [g[::-1]] if sw else [g])
                z = fd.Function(st().P1, name='z')
                S.set(z, [H - e])
                S.setgrad(z, [zg[::-1]] if sw else [zg])
                m = s.model(options('sand', use_bedload=True, **kw))
                d = out(S, m, False, True, z)
                res.append((d['qbx'], d['qby']))
            h.prove_eq(res[0][0], res[1][1], 'mirrored flow and bed give the mirrored bedload (x)')
            h.prove_eq(res[0][1], res[1][0], 'mirrored flow and bed give the mirrored bedload (y)')
    return run


def reduce(kw, slope=False):
    def run(h):
        with SymFD(h, modules=(smod,)) as S:
            a = State.draw(h, 'a')
            s = State(h, S, 's', a)
            d0 = out(S, s.model(options('sand', use_bedload=True)), False, True, s.bath)
            m = s.model(options('sand', use_bedload=True, **kw))
            z = fd.Function(st().P1, name='z')
            S.set(z, [a[3] - a[2]])
            if slope:
                g = [h.real(f'g{i}', lo=-0.3, hi=0.3) for i in range(2)]
                S.setgrad(z, [g])
                d1 = out(S, m, False, True, z)
                u, v = a[:2]
                # bathymetry increases along the flow: the bed slopes down
                h.assume(u*g[0] + v*g[1] >= 0)
                h.prove_ge(d1['qbx']*u + d1['qby']*v, d0['qbx']*u + d0['qby']*v, 'more bedload down a slope', tol=1e-12)
                beta = Fraction(13, 10) if h.symbolic else 1.3
                sp = ssqrt(u*u + v*v)
                h.prove_eq(d1['qbx']*sp, d0['qbx']*(sp + beta*(u*g[0] + v*g[1])), 'slope magnitude formula', tol=1e-9)
            else:
                d1 = out(S, m, False, True, z)
                for k in d0:
                    h.prove_eq(d1[k], d0[k], f'{k}: corrections vanish on a flat bed', tol=1e-9)
    return run


ck.harness('bedload-mirror[plain]', mirror({}))
ck.harness('bedload-mirror[slope]', mirror(dict(use_slope_mag_correction=True)))
ck.harness('bedload-mirror[slope,angle]', mirror(dict(use_slope_mag_correction=True, use_angle_correction=True)))
ck.harness('bedload-mirror[secondary]', mirror(dict(use_secondary_current=True)))
ck.harness('bedload-flat[slope]', reduce(dict(use_slope_mag_correction=True)))
ck.harness('bedload-flat[angle]', reduce(dict(use_angle_correction=True)))
ck.harness('bedload-flat[secondary]', reduce(dict(use_secondary_current=True)))
ck.harness('bedload-slope', reduce(dict(use_slope_mag_correction=True), slope=True))


# ---------------------------------------------------------------------------------------------------------------------
# sediment slide
class SlideModel:
    solve_suspended_sediment = use_bedload = False
    use_sediment_slide = True

    def __init__(self, P1, mesh):
        self.D = fd.Function(P1, name='D')
        self.sigma = fd.Constant(1.0)
        self.n = fd.FacetNormal(mesh)

    def get_sediment_slide_term(self, bath):
        return fd.as_matrix([[self.D, 0], [0, self.D]])


def slide_form(kind):
    def run(h):
        m = mesh2d()
        P1 = fd.FunctionSpace(m, 'CG', 1)
        mod = SlideModel(P1, m)
        z, w = fd.Function(P1, name='z'), fd.Function(P1, name='w')
        bath = fd.Function(P1)
        eq = exner_eq.ExnerEquation(P1, DepthExpression(bath), mod, False)
        F = fd.replace(eq.residual('implicit', z, z, {}, {}, None), {fd.TestFunction(P1): w})
        with Point(h, m, kind, None) as p:
            for f, n in ((z, 'z'), (w, 'w'), (mod.D, 'D')):
                p.coeff(f, n)
            p.constant(mod.sigma, 'sigma', lo=1, hi=10)
            v = p.integral(F)
            if kind == 'dx':
                g = sum(p.expr(z.dx(i))*p.expr(w.dx(i)) for i in range(2))
                h.prove_eq(v, p.value(mod.D)*g, 'slide term is diffusion with the (negative) slide coefficient')
                ones(p, w)
            else:
                h.prove_eq(v, 0, 'no facet contribution for continuous bathymetry')
    return run


ck.harness('slide-form[cell]', slide_form('dx'))
ck.harness('slide-form[facet]', slide_form('dS'))


def slide(step):
    def run(h):
        with SymFD(h, modules=(smod,)) as S:
            o = options('sand', use_sediment_slide=True, max_angle=fd.Constant(22.0), sed_slide_length_scale=fd.Constant(0.5))
            o.timestep = step
            s = State(h, S, 's', (1.0, 0.0, 0.0, 5.0) if not h.symbolic else (Fraction(1), Fraction(0), Fraction(0), Fraction(5)))
            m = s.model(o)
            z = fd.Function(st().P1, name='z')
            g = [h.real(f'g{i}', lo=-1, hi=1) for i in range(2)]
            slope2 = g[0]*g[0] + g[1]*g[1]
            tan2 = Fraction(0.40402622583515683**2*(1 - 1e-6))
            if step > 1:
                # far above the angle of repose; any angle in this range times the time step lies in (pi/2, 3 pi/2)
                h.assume(slope2 >= Fraction(1, 2))
                h.assume(slope2 <= Fraction(9, 10))
            S.set(z, [5.0 if not h.symbolic else Fraction(5)])
            S.setgrad(z, [g])
            D = m.get_sediment_slide_term(z)
            q = st().mesh
            d = S.val(D[0, 0], q)
            h.prove_eq(d, S.val(D[1, 1], q), 'isotropic')
            h.prove_eq(S.val(D[0, 1], q), 0, 'no cross diffusion')
            if step <= 1:
                # small step: the cosine in the documented formula is positive
                if h.symbolic:
                    for k, v in list(h.c.fns.items()):
                        if k[0] == 'cos':
                            h.assume(v > 0)
                    h.prove(SymBool(z3.Or(raw(slope2) > rv(tan2), raw(d) == 0)), 'no slide below the angle of repose')
                else:
                    h.prove(slope2 > float(tan2)*(1 - 1e-9) or d == 0, 'no slide below the angle of repose')
            h.prove_le(d, 0, 'slide flattens the bed', tol=1e-12)
    return run


ck.harness('slide[small-step]', slide(0.1))
ck.harness('slide[large-step]', slide(5.0), validate=False)
ck.finish()
