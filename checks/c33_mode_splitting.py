"""C33: coupled 2D-3D time stepping"""
from stand import *
import types
import numpy as np
import thetis.coupled_timeintegrator as ct
import thetis.utility as ut

ck = Check('C33', 'mode splitting')
TECHNIQUE = 'symbolic execution of the real coupled 2D-3D integrators: every equation returns arbitrary new states and records the state' \
            ' it was evaluated on; z3 proves the relations between these states'
ck.encoded('coupled_timeintegrator.CoupledTimeIntegratorBase.*', 'coupled_timeintegrator.CoupledTimeIntegrator.*',
           'coupled_timeintegrator.CoupledTwoStageRK.*', 'coupled_timeintegrator.CoupledLeapFrogAM3.*')
ck.bound('water columns of two layers with arbitrary shares, one velocity component; two consecutive steps; every set of options')
ck.assumed('the vertical operators are the depth mean of the column and its copies (C11), mesh updates are C12, one step of each integrator is'
           ' C18')


class Vec:
    """values of a field"""
    def __init__(self, v=0, n=1):
        self.v = list(v.v) if isinstance(v, Vec) else list(v) if isinstance(v, (list, tuple)) else [v]*n

    def _o(self, o):
        return o.v if isinstance(o, Vec) else [o]*len(self.v)

    def assign(self, o):
        self.v = list(self._o(o))
        return self

    def _mk(self, f, o):
        return Vec([f(a, b) for a, b in zip(self.v, self._o(o))])

    def __add__(self, o):
        return NotImplemented if isinstance(o, Tag) else self._mk(lambda a, b: a + b, o)
    __radd__ = __add__

    def __sub__(self, o):
        return self._mk(lambda a, b: a - b, o)

    def __rsub__(self, o):
        return self._mk(lambda a, b: b - a, o)

    def __mul__(self, o):
        return self._mk(lambda a, b: a*b, o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._mk(lambda a, b: a/b, o)

    def __neg__(self):
        return self*(-1)

    def __iadd__(self, o):
        return self.assign(self + o)

    def __isub__(self, o):
        return self.assign(self - o)

    def __imul__(self, o):
        return self.assign(self*o)

    def __itruediv__(self, o):
        return self.assign(self/o)

    def copy(self, deepcopy=False):
        return Vec(self)

    def project(self, o):
        return self.assign(o)
    interpolate = project


class Tag:
    """an option whose identity is followed"""
    def __init__(self, n):
        self.n = n

    def __add__(self, o):
        return Tag((self.n, o.n if isinstance(o, Tag) else o))

    def __radd__(self, o):
        return Tag((names.get(id(o), o), self.n))

    def __repr__(self):
        return f'<{self.n}>'

    def __eq__(self, o):
        return isinstance(o, Tag) and self.n == o.n

    def __hash__(self):
        return hash(str(self.n))


names = {}


class Model:
    def __init__(self, h, cls, salt, temp, baroc, turb, limT, limV, smag, impl, ale, sources=True):
        self.h = h
        self.cfg = dict(salt=salt, temp=temp, baroc=baroc, turb=turb, limT=limT, limV=limV, smag=smag, impl=impl, ale=ale)
        self.log = []
        self.cnt = 0
        self.share = h.real('share', lo=Fr(1, 10), hi=Fr(9, 10))
        f = self.f = ut.AttrDict()
        for n, k in dict(elev_2d=1, elev_cg_2d=1, elev_domain_2d=1, uv_2d=1, uv_dav_2d=1, split_residual_2d=1, uv_3d=2, uv_dav_3d=2, w_3d=2,
                         solution_2d=1, w_mesh_3d=1, salt_3d=1, temp_3d=1, tke_3d=1, psi_3d=1, density=1).items():
            f[n] = Vec(0, k)
        if not salt:
            del f['salt_3d']
        if not temp:
            del f['temp_3d']
        if not turb:
            del f['tke_3d'], f['psi_3d']
        if baroc:
            f.int_pg_3d = Tag('int_pg_3d')
        f.coriolis_3d, f.wind_stress_3d = Tag('coriolis_3d'), Tag('wind_stress_3d')
        f.elev_domain_2d.view_3d = Tag('elev_domain view')
        for n, v in f.items():
            names[id(v)] = n
        o = self.o = types.SimpleNamespace(
            solve_salinity=salt, solve_temperature=temp, use_baroclinic_formulation=baroc, use_turbulence=bool(turb),
            use_limiter_for_tracers=limT, use_limiter_for_velocity=limV, use_smagorinsky_viscosity=smag,
            use_implicit_vertical_diffusion=impl, use_ale_moving_mesh=ale)
        for n in ('coriolis_frequency', 'volume_source_2d', 'atmospheric_pressure', 'momentum_source_3d',
                  'lax_friedrichs_velocity_scaling_factor', 'linear_drag_coefficient', 'quadratic_drag_coefficient', 'bottom_roughness',
                  'salinity_source_3d', 'temperature_source_3d', 'lax_friedrichs_tracer_scaling_factor'):
            setattr(o, n, Tag(n))
        o.momentum_source_2d = Tag('momentum_source_2d') if sources else None
        o.timestepper_options = types.SimpleNamespace(**{n: Tag(n) for n in (
            'swe_options', 'explicit_momentum_options', 'implicit_momentum_options', 'explicit_tracer_options', 'implicit_tracer_options')})
        s = self.s = types.SimpleNamespace(fields=f, options=o, dt=h.real('dt0', lo=1, hi=100))
        s.equations = types.SimpleNamespace(sw=Tag('eq sw'), momentum=Tag('eq momentum'), vertmomentum=Tag('eq vertmomentum'))
        if salt:
            s.equations.salt, s.equations.salt_vdff = Tag('eq salt'), Tag('eq salt_vdff')
        if temp:
            s.equations.temp, s.equations.temp_vdff = Tag('eq temp'), Tag('eq temp_vdff')
        if turb:
            s.equations.tke_diff, s.equations.psi_diff = Tag('eq tke_diff'), Tag('eq psi_diff')
        if turb == 2:
            s.equations.tke_adv, s.equations.psi_adv = Tag('eq tke_adv'), Tag('eq psi_adv')
        s.bnd_functions = {n: Tag('bnd ' + n) for n in ('shallow_water', 'momentum', 'salt', 'temp')}
        for n in ('tot_v_visc', 'tot_v_diff', 'tot_h_visc', 'tot_h_diff'):
            setattr(s, n, types.SimpleNamespace(get_sum=lambda n=n: Tag(n)))
        s.turbulence_model = types.SimpleNamespace(epsilon=Tag('epsilon'), m2=Tag('m2'), n2_neg=Tag('n2_neg'), n2_pos=Tag('n2_pos'),
                                                   preprocess=lambda: self.rec('turb.pre'), postprocess=lambda: self.rec('turb.post'))

        def lim(n):
            def apply(fld):
                self.rec(f'{n} {names[id(fld)]}')
                fld.assign(Vec([self.new('lim') for _ in fld.v]))
            return types.SimpleNamespace(apply=apply)
        s.tracer_limiter, s.uv_limiter = lim('tracer_limiter'), lim('uv_limiter')
        s.uv_averager = self.op('uv_averager', lambda: f.uv_dav_3d.assign(self.mean(f.uv_3d)))
        s.extract_surf_dav_uv = self.op('extract', lambda: f.uv_dav_2d.assign(f.uv_dav_3d.v[1]))
        s.copy_uv_dav_to_uv_dav_3d = self.op('copy_dav', lambda: f.uv_dav_3d.assign(f.uv_dav_2d.v[0]))
        s.copy_uv_to_uv_dav_3d = self.op('copy_uv', lambda: f.uv_dav_3d.assign(f.uv_2d.v[0]))
        self.mesh = 0

        def w():
            f.w_3d.assign(0)
            self.w_from = (list(f.uv_3d.v), list(f.uv_dav_3d.v), self.mesh, list(f.elev_domain_2d.v))
            self.rec('w')
        s.w_solver = types.SimpleNamespace(solve=w)
        s.smagorinsky_diff_solver = types.SimpleNamespace(solve=lambda: self.rec('smag'))

        def move():
            self.mesh += 1
            self.mesh_elev = list(f.elev_2d.v)
            self.rec('mesh')

        def begin():
            f.elev_cg_2d.assign(f.elev_2d)
            self.rec('begin')

        def finalize(w_mesh_surf_expr=None):
            f.w_mesh_3d.assign(w_mesh_surf_expr if w_mesh_surf_expr is not None else (f.elev_2d - f.elev_cg_2d)/s.dt)
            f.elev_cg_2d.assign(f.elev_2d)
            self.rec('finalize')
        s.mesh_updater = types.SimpleNamespace(compute_mesh_velocity_begin=begin, compute_mesh_velocity_finalize=finalize,
                                               update_mesh_coordinates=move)
        self.made = []
        M = self

        class Step:
            n_stages, cfl_coeff = 2, 1.0

            def __init__(q, equation, solution, fields, dt, options, bnd_conditions=None):
                q.n = equation.n[3:]
                q.solution, q.fields = solution, fields
                q.dt = q.dt_const = dt
                M.made.append((q.kind, equation, solution, fields, dt, options, bnd_conditions))

            def set_dt(q, dt):
                q.dt = q.dt_const = dt

            def initialize(q, sol):
                M.rec(f'init {q.n}', sol)

            def result(q):
                q.solution.assign(Vec([M.new(q.n) for _ in q.solution.v]))

            def rhs(q, what, *a):
                M.rec(f'{q.n}.{what}', *a)

        class E3(Step):
            kind = '3d'
            gamma = Fr(1, 12)

            def prepare_stage(q, i, t, cb=None):
                q.rhs('prepare_stage', i, t, cb)

            def solve_stage(q, i):
                q.rhs('solve_stage', i)
                q.result()

            def predict(q):
                q.rhs('predict')
                q.result()

            def eval_rhs(q):
                q.rhs('eval_rhs')

            def correct(q):
                q.rhs('correct')
                q.result()

        class V3(Step):
            kind = 'vert'

            def advance(q, t, cb=None):
                q.rhs('advance', t)
                q.result()

        class S2(Step):
            kind = '2d'

            def go(q):
                f.elev_2d.assign(M.new('elev'))
                f.uv_2d.assign(M.new('uv2'))
                M.rec('sw done')

            def solve_stage(q, i, t, cb=None):
                q.rhs('solve_stage', i, t, cb)
                q.go()

            def advance(q, t, cb=None):
                q.rhs('advance', t, cb)
                q.go()
        self.T = type('T', (cls,), dict(integrator_2d=S2, integrator_3d=E3, integrator_vert_3d=V3))

    def create(self):
        self.t = self.T(self.s)
        return self.t

    def new(self, n):
        self.cnt += 1
        return self.h.real(f'{n}{self.cnt}', lo=-10, hi=10)

    def mean(self, x):
        return self.share*x.v[0] + (1 - self.share)*x.v[1]

    def op(self, n, fn):
        def solve():
            fn()
            self.rec(n)
        return types.SimpleNamespace(solve=solve)

    def rec(self, n, *a):
        self.log.append(types.SimpleNamespace(n=n, a=a, f={k: list(v.v) for k, v in self.f.items() if isinstance(v, Vec)}, mesh=self.mesh,
                                              w=getattr(self, 'w_from', None), b=getattr(self, 'b_from', None)))

    def baroclinic(self, solver):
        assert solver is self.s
        self.b_from = [list(self.f[k].v) for k in ('salt_3d', 'temp_3d') if k in self.f] + [self.mesh]
        self.rec('baroc')

    def patches(self):
        return [(ct, 'Function', lambda o, *a, **k: Vec(o)), (ct, 'compute_baroclinic_head', self.baroclinic), (ct, 'print_output',
                                                                                                          lambda *a, **k: None)] + (
            [(ct, 'numpy', NPR())] if self.h.symbolic else [])

    def start(self):
        self.f.elev_2d.assign(self.new('elev'))
        self.f.uv_2d.assign(self.new('uv2'))
        self.f.uv_dav_3d.assign(self.f.uv_2d.v[0])
        a = self.new('uv3')
        self.f.uv_3d.assign(Vec([a, -self.share*a/(1 - self.share)]))
        self.f.elev_domain_2d.assign(self.f.elev_2d)
        if self.cfg['ale']:
            self.s.mesh_updater.update_mesh_coordinates()
        self.t.initialize()
        self.t._update_all_dependencies(0., do_2d_coupling=False, do_vert_diffusion=False, do_ale_update=True, do_stab_params=True,
                                        do_turbulence=False)


class NPR:
    def __getattr__(self, k):
        return getattr(np, k)

    @staticmethod
    def round(x):
        return (x + Fr(1, 2)).floor() if is_sym(x) and hasattr(x, 'floor') else x

    @staticmethod
    def isclose(a, b):
        return abs(a - b) <= Fr(1, 10**8) + abs(b)*Fr(1, 10**5)


def same(h, a, b, what):
    for x, y in zip(a, b):
        h.prove_eq(x, y, what, scale=10)


def fresh(h, M, e):
    """the diagnostics an evaluation relies on belong to the state it is evaluated on"""
    same(h, e.w[0], e.f['uv_3d'], f'{e.n}: vertical velocity of the current 3D velocity')
    same(h, e.w[1], e.f['uv_dav_3d'], f'{e.n}: vertical velocity of the current depth mean')
    h.prove(e.w[2] == e.mesh, f'{e.n}: vertical velocity on the current mesh')
    same(h, e.w[3], e.f['elev_domain_2d'], f'{e.n}: vertical velocity of the current elevation')
    if M.cfg['baroc']:
        cur = [e.f[k] for k in ('salt_3d', 'temp_3d') if k in e.f]
        for a, b in zip(e.b, cur):
            same(h, a, b, f'{e.n}: pressure gradient of the current density')
        h.prove(e.b[-1] == e.mesh, f'{e.n}: pressure gradient on the current mesh')


def mean_of(h, M, uv):
    return M.share*uv[0] + (1 - M.share)*uv[1]


def equations(M):
    """explicit 3D equations in use"""
    c = M.cfg
    return (['salt'] if c['salt'] else []) + (['temp'] if c['temp'] else []) + (['psi_adv', 'tke_adv'] if c['turb'] == 2 else []) + ['momentum']


FIELD = dict(salt='salt_3d', temp='temp_3d', momentum='uv_3d', psi_adv='psi_3d', tke_adv='tke_3d')


def limiters(h, M, L, verb, times):
    """limiters directly follow the update of their own field"""
    for eq in equations(M):
        want = M.cfg['limV'] if eq == 'momentum' else M.cfg['limT'] if eq in ('salt', 'temp') else False
        lim = ('uv_limiter ' if eq == 'momentum' else 'tracer_limiter ') + FIELD[eq]
        h.prove(sum(e.n == lim for e in L) == (times if want else 0), f'{lim} {"after every update" if want else "not used"}')
        if want:
            for k, e in enumerate(L):
                if e.n in [f'{eq}.{v}' for v in verb]:
                    nxt = [q for q in L[k+1:] if q.n == lim or q.n.startswith(eq + '.') or q.n in ('w', 'baroc', 'uv_averager')]
                    h.prove(bool(nxt) and nxt[0].n == lim, f'{lim} before the field is used')


def implicit(h, M, L, t):
    """vertical diffusion: once, after the explicit updates, on the full velocity"""
    c = M.cfg
    for eq, on in (('salt_vdff', c['salt']), ('temp_vdff', c['temp']), ('vertmomentum', True)):
        A = [k for k, e in enumerate(L) if e.n == eq + '.advance']
        h.prove(len(A) == (1 if on and c['impl'] else 0), f'{eq} advanced once if implicit')
        for k in A:
            h.prove_eq(L[k].a[0], t, f'{eq} from the time of the step')
            h.prove(all(not e.n.endswith(('.solve_stage', '.correct', '.predict', '.prepare_stage', '.eval_rhs')) for e in L[k:]),
                    f'{eq} after the explicit equations')
            if eq == 'vertmomentum':
                same(h, [mean_of(h, M, L[k].f['uv_3d'])], L[k].f['uv_2d'], 'vertical viscosity acts on the full velocity')
                same(h, L[k].f['uv_dav_3d'], L[k].f['uv_2d']*2, 'depth mean of the 2D mode')


def turbulence(h, M, L, t):
    on = M.cfg['turb']
    pre = [k for k, e in enumerate(L) if e.n == 'turb.pre']
    h.prove(len(pre) == (1 if on else 0), 'turbulence model updated once if used')
    seq = [e.n for e in L if e.n.startswith(('turb.', 'psi_diff', 'tke_diff'))]
    h.prove(seq == (['turb.pre', 'psi_diff.advance', 'tke_diff.advance', 'turb.post'] if on else []), 'preprocess, psi, tke, postprocess')
    for e in L:
        if e.n in ('psi_diff.advance', 'tke_diff.advance'):
            h.prove_eq(e.a[0], t, 'turbulence from the time of the step')
    h.prove(sum(e.n == 'smag' for e in L) == (1 if M.cfg['smag'] else 0), 'Smagorinsky viscosity once if used')


def final(h, M, L, e2, u2):
    """state left behind"""
    f = M.f
    same(h, f.elev_2d.v, e2, 'elevation of the 2D mode')
    same(h, f.uv_2d.v, u2, 'depth mean velocity of the 2D mode')
    same(h, f.elev_domain_2d.v, e2, '3D domain at the new elevation')
    same(h, f.uv_dav_3d.v, u2*2, 'depth mean of the 3D fields is that of the 2D mode')
    M.rec('end')
    fresh(h, M, M.log[-1])
    if not M.cfg['impl']:
        same(h, [mean_of(h, M, f.uv_3d.v)], [0], '3D velocity has no depth mean')
    if M.cfg['ale']:
        same(h, M.mesh_elev, e2, 'mesh at the new elevation')


def residual(h, M, e, before):
    """forcing of the 2D mode: depth mean just removed from the 3D velocity"""
    ks = [i for i, q in enumerate(before) if q.n == 'uv_averager']
    h.prove(bool(ks), 'depth mean removed before the 2D mode')
    if not ks:
        return
    k = ks[-1]
    h.prove_eq(e.f['split_residual_2d'][0]*M.dt, before[k].f['uv_dav_3d'][0], 'depth mean tendency of the 3D momentum is passed to the 2D mode',
               scale=1e3)


CONFIG = ('salt', 'temp', 'baroc', 'turb', 'limT', 'limV', 'smag', 'impl')


def build(h, cls, ale=True):
    c = dict(zip(('salt', 'temp'), h.choice('tracers', [(False, False), (True, False), (False, True), (True, True)])))
    c['turb'] = h.choice('turb', [0, 1, 2])
    c['impl'] = h.bool('impl')
    c['baroc'] = h.bool('baroc')
    c['limT'], c['limV'] = h.choice('lim', [(False, False), (True, False), (False, True), (True, True)])
    c['smag'] = c['limV'] == c['baroc']
    M = Model(h, cls, ale=ale, **c)
    return M


def two_stage(ale):
    def run(h):
        M = build(h, ct.CoupledTwoStageRK, ale)
        with patched(*M.patches()):
            T = M.create()
            dt = M.dt = h.real('dt', lo=1, hi=100)
            T.set_dt(dt, dt)
            M.start()
            eqs = equations(M)
            for step in range(2):
                t = h.real(f't{step}', lo=0, hi=1e6)
                cb2, cb3 = (lambda t: None), (lambda t: None)
                M.log.clear()
                e0 = list(M.f.elev_2d.v)
                T.advance(t, cb2, cb3)
                L = list(M.log)
                sw = [k for k, e in enumerate(L) if e.n == 'sw.solve_stage']
                h.prove([L[k].a[0] for k in sw] == [0, 1], '2D mode: two stages')
                if len(sw) != 2:
                    return
                for eq in eqs:
                    S = [(e.n.split('.')[1], e.a[0]) for e in L if e.n.startswith(eq + '.')]
                    h.prove(S == [('prepare_stage', 0), ('solve_stage', 0), ('prepare_stage', 1), ('solve_stage', 1)], f'{eq}: two stages')
                ex = {e.n.split('.')[0] for e in L if e.n.endswith('.prepare_stage')}
                h.prove(ex == set(eqs), 'only the equations in use')
                for e in L:
                    if e.n == 'sw.solve_stage':
                        h.prove_eq(e.a[1], t, '2D stage from the time of the step')
                        h.prove(e.a[2] is cb2, '2D forcing callback')
                    if e.n.endswith('.prepare_stage'):
                        h.prove_eq(e.a[1], t, '3D stage from the time of the step')
                        h.prove(e.a[2] is cb3, '3D forcing callback')
                st = [e0, None, None]
                for i, k in enumerate(sw):
                    # state after this 2D stage
                    nx = [q for q in L[k+1:]][0]
                    st[i+1] = nx.f['elev_2d']
                    seg = L[k:(sw[i+1] if i == 0 else len(L))]
                    if step or i:
                        residual(h, M, L[k], (HIST if i == 0 else []) + L[:k])
                    for e in seg:
                        if e.n.endswith('.prepare_stage'):
                            same(h, e.f['elev_domain_2d'], st[i], f'{e.n}: right-hand side at the elevation of the stage')
                            fresh(h, M, e)
                            if ale:
                                w = (st[1][0] - e0[0]) if i == 0 else (2*st[2][0] - st[1][0] - e0[0])
                                h.prove_eq(e.f['w_mesh_3d'][0]*M.s.dt, w, f'{e.n}: mesh velocity of the stage', scale=40)
                        if e.n.endswith('.solve_stage') and not e.n.startswith('sw.'):
                            same(h, e.f['elev_domain_2d'], st[i+1], f'{e.n}: update at the new elevation')
                    if ale:
                        h.prove(sum(e.n == 'mesh' for e in seg) == 1, 'mesh moved once per stage')
                limiters(h, M, L, ['solve_stage'], 2)
                implicit(h, M, L, t)
                turbulence(h, M, L, t)
                final(h, M, L, st[2], L[-1].f['uv_2d'])
                HIST = L
    return run


def leapfrog(ale):
    def run(h):
        M = build(h, ct.CoupledLeapFrogAM3, ale)
        with patched(*M.patches()):
            T = M.create()
            dt = M.dt = h.real('dt', lo=1, hi=100)
            T.set_dt(dt, dt)
            M.start()
            eqs = equations(M)
            for step in range(2):
                t = h.real(f't{step}', lo=0, hi=1e6)
                cb2, cb3 = (lambda t: None), (lambda t: None)
                M.log.clear()
                e0, u0 = list(M.f.elev_2d.v), list(M.f.uv_2d.v)
                T.advance(t, cb2, cb3)
                L = list(M.log)
                sw = [k for k, e in enumerate(L) if e.n == 'sw.advance']
                h.prove(len(sw) == 1, '2D mode advanced once')
                if len(sw) != 1:
                    return
                h.prove_eq(L[sw[0]].a[0], t, '2D mode from the time of the step')
                h.prove(L[sw[0]].a[1] is cb2, '2D forcing callback')
                e1, u1 = L[sw[0]+1].f['elev_2d'], L[sw[0]+1].f['uv_2d']
                residual(h, M, L[sw[0]], L[:sw[0]])
                for eq in eqs:
                    S = [e.n.split('.')[1] for e in L if e.n.startswith(eq + '.')]
                    h.prove(S == ['predict', 'eval_rhs', 'correct'], f'{eq}: predict, evaluate, correct')
                ex = {e.n.split('.')[0] for e in L if e.n.endswith('.predict')}
                h.prove(ex == set(eqs), 'only the equations in use')
                g = Fr(1, 12)
                half = [(Fr(1, 2) + 2*g)*a + (Fr(1, 2) - 2*g)*b for a, b in zip(e1, e0)]
                uh = [(Fr(1, 2) + 2*g)*a + (Fr(1, 2) - 2*g)*b for a, b in zip(u1, u0)]
                start = {k: v for k, v in L[0].f.items()}
                for k, e in enumerate(L):
                    if e.n.endswith('.predict'):
                        h.prove(k < sw[0], 'prediction before the 2D mode')
                        same(h, e.f['elev_domain_2d'], e0, f'{e.n}: at the old elevation')
                        same(h, e.f['uv_dav_3d'], u0*2, f'{e.n}: with the old depth mean')
                        if ale:
                            same(h, e.f['w_mesh_3d'], [0], f'{e.n}: mesh fixed')
                    if e.n.endswith('.eval_rhs'):
                        h.prove(k > sw[0], 'right-hand side after the 2D mode')
                        same(h, e.f['elev_domain_2d'], half, f'{e.n}: elevation at the half step')
                        same(h, e.f['uv_dav_3d'], uh*2, f'{e.n}: depth mean at the half step')
                        same(h, [mean_of(h, M, e.f['uv_3d'])], [0], f'{e.n}: 3D velocity without depth mean')
                        if ale:
                            h.prove_eq(e.f['w_mesh_3d'][0]*M.s.dt, e1[0] - e0[0], f'{e.n}: mesh velocity of the step', scale=40)
                        fresh(h, M, e)
                    if e.n.endswith('.correct'):
                        same(h, e.f['elev_domain_2d'], e1, f'{e.n}: at the new elevation')
                R = [k for k, e in enumerate(L) if e.n.endswith('.eval_rhs')]
                C = [k for k, e in enumerate(L) if e.n.endswith('.correct')]
                h.prove(max(R) < min(C), 'every right-hand side before the first correction')
                if ale:
                    mv = [k for k, e in enumerate(L) if e.n == 'mesh']
                    h.prove(len(mv) == 1 and max(R) < mv[0] < min(C), 'mesh moved once, between right-hand side and correction')
                first = [e for e in L if e.n.endswith('.predict')][0]
                fresh(h, M, first)
                limiters(h, M, L, ['predict', 'correct'], 2)
                implicit(h, M, L, t)
                turb = M.cfg['turb']
                if M.cfg['impl']:
                    turbulence(h, M, L, t)
                final(h, M, L, e1, u1)
    return run


def wiring(cls):
    """each integrator gets its own equation, field, coefficients, options and boundary data"""
    def run(h):
        c = dict(salt=h.bool('salt'), temp=h.bool('temp'), baroc=h.bool('baroc'), turb=h.choice('turb', [0, 1, 2]), impl=h.bool('impl'),
                 limT=False, limV=False, smag=False, ale=True)
        M = Model(h, cls, sources=h.bool('source'), **c)
        with patched(*M.patches()):
            T = M.create()
        f, o, s = M.f, M.o, M.s
        made = {e[1].n: e for e in M.made}
        h.prove(len(made) == len(M.made), 'one integrator per equation')
        fric = dict(linear_drag_coefficient=o.linear_drag_coefficient, quadratic_drag_coefficient=o.quadratic_drag_coefficient,
                    wind_stress=f.wind_stress_3d, bottom_roughness=o.bottom_roughness)
        adv = dict(elev_3d=f.elev_domain_2d.view_3d, uv_3d=f.uv_3d, uv_depth_av=f.uv_dav_3d, w=f.w_3d, w_mesh=f.w_mesh_3d,
                   lax_friedrichs_tracer_scaling_factor=o.lax_friedrichs_tracer_scaling_factor)
        vd = None if c['impl'] else Tag('tot_v_diff')
        vv = None if c['impl'] else Tag('tot_v_visc')
        ts = o.timestepper_options
        want = {'eq sw': ('2d', f.solution_2d, dict(
            coriolis=o.coriolis_frequency, volume_source=o.volume_source_2d, atmospheric_pressure=o.atmospheric_pressure,
            momentum_source=f.split_residual_2d if o.momentum_source_2d is None else Tag(('split_residual_2d', 'momentum_source_2d'))),
            ts.swe_options, 'shallow_water')}
        want['eq momentum'] = ('3d', f.uv_3d, dict(
            eta=f.elev_domain_2d.view_3d, int_pg=f.get('int_pg_3d'), uv_depth_av=f.uv_dav_3d, w=f.w_3d, w_mesh=f.w_mesh_3d, viscosity_v=vv,
            viscosity_h=Tag('tot_h_visc'), source=o.momentum_source_3d, coriolis=f.coriolis_3d,
            lax_friedrichs_velocity_scaling_factor=o.lax_friedrichs_velocity_scaling_factor, **({} if c['impl'] else fric)),
            ts.explicit_momentum_options, 'momentum')
        if c['impl']:
            want['eq vertmomentum'] = ('vert', f.uv_3d, dict(viscosity_v=Tag('tot_v_visc'), **fric), ts.implicit_momentum_options, 'momentum')
        for n, l in (('salt', 'salinity'), ('temp', 'temperature')):
            if c[n]:
                want[f'eq {n}'] = ('3d', f[n + '_3d'], dict(adv, diffusivity_h=Tag('tot_h_diff'), diffusivity_v=vd,
                                                           source=getattr(o, l + '_source_3d')), ts.explicit_tracer_options, n)
                if c['impl']:
                    want[f'eq {n}_vdff'] = ('vert', f[n + '_3d'], dict(elev_3d=f.elev_domain_2d.view_3d, diffusivity_v=Tag('tot_v_diff')),
                                            ts.implicit_tracer_options, n)
        if c['turb']:
            tm = s.turbulence_model
            for n in ('tke', 'psi'):
                want[f'eq {n}_diff'] = ('vert', f[n + '_3d'], dict(
                    k=f.tke_3d, epsilon=tm.epsilon, shear_freq2=tm.m2, buoy_freq2_neg=tm.n2_neg, buoy_freq2_pos=tm.n2_pos,
                    bottom_roughness=o.bottom_roughness, **(dict(diffusivity_v=Tag('tot_v_diff'), viscosity_v=Tag('tot_v_visc'))
                                                            if c['impl'] else {})), ts.implicit_tracer_options, None)
                if c['turb'] == 2:
                    want[f'eq {n}_adv'] = ('3d', f[n + '_3d'], adv, ts.explicit_tracer_options, None)
        h.prove(set(made) == set(want), f'integrators of the equations in use')
        for n, (kind, sol, fields, opt, bnd) in want.items():
            if n not in made:
                continue
            k, eq, sl, fl, dt, op, bn = made[n]
            h.prove(k == kind, f'{n}: integrator of its kind')
            h.prove(sl is sol, f'{n}: its own field')
            h.prove_eq(dt, s.dt, f'{n}: time step of the run')
            h.prove(op == opt, f'{n}: its own options')
            h.prove((bn == Tag('bnd ' + bnd)) if bnd else not bn, f'{n}: its own boundary data')
            for q in set(fields) | set(fl):
                a, b = fields.get(q), fl.get(q)
                if n.endswith('_diff') and not c['impl'] and q in ('diffusivity_v', 'viscosity_v'):
                    continue
                h.prove(a is b or (isinstance(a, Tag) and a == b), f'{n}: coefficient {q}')
        # initial values and time step
        with patched(*M.patches()):
            T.initialize()
            ini = {e.n[5:]: e.a[0] for e in M.log if e.n.startswith('init ')}
            h.prove(set(ini) == {n[3:] for n in want}, 'every integrator initialised')
            for n in ini:
                h.prove(ini[n] is want['eq ' + n][1], f'{n}: initialised with its own field')
            dt = h.real('dt', lo=1, hi=100)
            T.set_dt(dt, dt)
            for st in T.timesteppers.values():
                h.prove_eq(st.dt, dt, 'new time step everywhere')
            h.prove(T.n_stages == 2 and T.cfl_coeff_2d == 1.0 and T.cfl_coeff_3d == 1.0, 'stages and CFL numbers of the integrators')
    return run


def fractions(h):
    """the 2D step divides the 3D step"""
    M = Model(h, ct.CoupledTwoStageRK, False, False, False, 0, False, False, False, False, False)
    with patched(*M.patches()):
        T = M.create()
    r = h.choice('whole', [True, False])
    r = Fr(h.int('n', 2, 6)) if r and not h.symbolic else h.int('n', 2, 6) if r else h.real('ratio', lo=Fr(11, 10), hi=Fr(19, 10))
    old = T.timesteppers.swe2d.dt
    with patched(*M.patches()[:3]):
        try:
            with patched(*([(ct, 'numpy', NPR())] if h.symbolic else [])):
                T.set_dt(r*10 if h.symbolic else float(r)*10, 10)
            ok = False
        except (AssertionError, NotImplementedError):
            ok = True
    h.prove(ok, 'steps that do not fit are refused')
    h.prove_eq(T.timesteppers.swe2d.dt, old, 'time step kept')


for a in (True, False):
    if a or ck.thorough:
        ck.harness(f'two-stage[{"moving" if a else "fixed"}]', two_stage(a), max_paths=4000)
        ck.harness(f'leapfrog[{"moving" if a else "fixed"}]', leapfrog(a), max_paths=4000)
for cls in (ct.CoupledTwoStageRK, ct.CoupledLeapFrogAM3):
    ck.harness(f'wiring[{cls.__name__}]', wiring(cls), max_paths=400)
ck.harness('fractions', fractions)
ck.finish()
