"""C20: coupled 2D stepping advances every equation once, in the documented order, from the current fields"""
from stand import *
import inspect
from types import SimpleNamespace
import thetis.solver2d as s2
from thetis import coupled_timeintegrator_2d as ct, timeintegrator as ti, rungekutta as rk, implicitexplicit as ie
from thetis.options import ModelOptions2d
from thetis.utility import AttrDict, FieldDict
from firedrake import Constant

ck = Check('C20', 'coupled-stepping')
TECHNIQUE = 'symbolic execution of the real FlowSolver2d stepper set-up and coupled integrators with every equation update an' \
            ' uninterpreted function of all the state it is given; z3 decides equality with the documented composition'
ck.encoded('solver2d.FlowSolver2d.create_timestepper/get_swe_timestepper/get_tracer_timestepper/get_sediment_timestepper/'
           'get_exner_timestepper/get_fs_timestepper', 'coupled_timeintegrator_2d.CoupledTimeIntegrator2D.__init__/'
           '_create_integrators/set_dt/initialize/advance/advance_picard', 'coupled_timeintegrator_2d.GeneralCoupledTimeIntegrator2D',
           'coupled_timeintegrator_2d.NonHydrostaticTimeIntegrator2D.advance')
ck.bound('two consecutive steps; up to three tracer systems; 1 to 3 Picard iterations; every subset of enabled equations, limiter'
         ' on/off, non-hydrostatic mode with every stepper type')
ck.assumed('the update of each equation is an arbitrary (uninterpreted) function of its solution, the fields, boundary data, step'
           ' and time it was given, of the sediment model state for sediment and bed, and of its integrator class')

CLASSES = {'SSPRK33': rk.SSPRK33, 'ForwardEuler': ti.ForwardEuler, 'SteadyState': ti.SteadyState,
           'BackwardEuler': rk.BackwardEulerUForm, 'DIRK22': rk.DIRK22UForm, 'DIRK33': rk.DIRK33UForm,
           'CrankNicolson': ti.CrankNicolson, 'PressureProjectionPicard': ti.PressureProjectionPicard, 'SSPIMEX': ie.IMEXLPUM2}
STAGES = {'SSPRK33': 3, 'BackwardEuler': 1, 'DIRK22': 2, 'DIRK33': 3}
EQ = {'sw': 'equation of the shallow water system', 'mom': 'momentum', 'fs': 'free surface'}


class Tok:
    def __init__(self, name):
        self.name = name
        self.bnd_functions = None

    def function_space(self):
        return 'space'

    def __repr__(self):
        return self.name


class World:
    """real FlowSolver2d methods on stand-in fields; all integrator classes replaced in place by recorders"""
    def __init__(self, h, cfg):
        self.h, self.cfg = h, cfg
        self.uf = UF(h)
        self.log = []
        self.made = []
        o = ModelOptions2d()
        self.o = o
        o.no_exports = True
        o.swe_timestepper_type = cfg.get('swe', 'CrankNicolson')
        o.tracer_timestepper_type = cfg.get('tracer', 'CrankNicolson')
        o.tracer_only = cfg.get('tracer_only', False)
        o.use_limiter_for_tracers = cfg.get('limiter', False)
        o.tracer_picard_iterations = cfg.get('picard', 1)
        so = o.sediment_model_options
        so.solve_suspended_sediment = cfg.get('sediment', False)
        so.solve_exner = cfg.get('exner', False)
        if so.solve_suspended_sediment:
            so.sediment_timestepper_type = cfg.get('sed_stepper', 'CrankNicolson')
        if so.solve_exner:
            so.exner_timestepper_type = cfg.get('exn_stepper', 'CrankNicolson')
        nh = o.nh_model_options
        nh.solve_nonhydrostatic_pressure = cfg.get('nh', False)
        if cfg.get('nh'):
            nh.free_surface_timestepper_type = cfg.get('fs', 'CrankNicolson')
            nh.update_free_surface = cfg.get('update_fs', True)
        # distinguishable coefficients
        self.co = {}

        def c(k):
            self.co[k] = Constant(float(len(self.co) + 1))
            return self.co[k]
        for k in ('quadratic_drag_coefficient', 'horizontal_viscosity', 'coriolis_frequency', 'volume_source_2d',
                  'momentum_source_2d', 'wind_stress', 'atmospheric_pressure', 'lax_friedrichs_velocity_scaling_factor',
                  'lax_friedrichs_tracer_scaling_factor', 'tracer_advective_velocity_factor', 'linear_drag_coefficient',
                  'manning_drag_coefficient', 'nikuradse_bed_roughness'):
            setattr(o, k, c(k) if k not in ('momentum_source_2d', 'wind_stress') else self.vec(k))
        for k in ('horizontal_diffusivity', 'morphological_acceleration_factor', 'porosity'):
            setattr(so, k, c('sed-' + k))
        self.systems = cfg.get('tracers', [])
        for s in self.systems:
            ls = s.split(',')
            kw = {l: {'source': c('src-' + l), 'diffusivity': c('diff-' + l)} for l in ls}
            if len(ls) == 1:
                o.add_tracer_2d(s, s, s, **kw[s])
            else:
                o.add_tracer_system_2d(ls, ls, ls, **kw)
        # solver
        sol = object.__new__(s2.FlowSolver2d)
        self.sol = sol
        f = lambda n: Val(h.real('ini_' + n, lo=-5, hi=5), n)
        self.uv, self.elev = f('uv_2d'), f('elev_2d')
        self.sw = MixedVal(self.uv, self.elev)
        F = FieldDict.__new__(AttrDict)
        F.__init__()
        F.solution_2d, F.uv_2d, F.elev_2d, F.bathymetry_2d = self.sw, self.uv, self.elev, f('bathymetry_2d')
        self.tr = {}
        for s in self.systems:
            ls = s.split(',')
            ch = [f(l) for l in ls]
            for l, v in zip(ls, ch):
                F[l] = v
            self.tr[s] = ch[0] if len(ls) == 1 else MixedVal(*ch)
            F[s] = self.tr[s]
        if so.solve_suspended_sediment:
            F.sediment_2d = f('sediment_2d')
        if cfg.get('nh'):
            F.q_2d, F.w_2d = f('q_2d'), f('w_2d')
        self.F = F
        d = dict(options=o, fields=F, function_spaces=AttrDict(U_2d='U', H_2d='H', V_2d='V', Q_2d='Q'), depth=Tok('depth'),
                 bnd_functions={k: Tok('bnd ' + k) for k in ('shallow_water', 'sediment')},
                 solve_tracer=len(self.systems) > 0, tidal_farms=None, sediment_model=None, dt=h.real('dt', gt=0, hi=100))
        for i, s in enumerate(self.systems):
            if i % 2 == 0:
                d['bnd_functions'][s] = Tok('bnd ' + s)
            elif ',' not in s:
                d['bnd_functions'][s[:-3]] = Tok('bnd ' + s)
        d['equations'] = AttrDict({k: Tok('eq ' + k) for k in ['sw', 'fs'] + self.systems})
        if so.solve_suspended_sediment:
            d['equations'].sediment = Tok('eq sediment')
        if so.solve_exner:
            d['equations'].exner = Tok('eq exner')
        w = self

        class Lim:
            def apply(self, f):
                w.hold(f, 'limiter', [w.comp(f)])
        d['tracer_limiter'] = Lim() if cfg.get('limiter') else None

        class Model:
            def __init__(self):
                self.v = h.real('ini_model')
                self.factor = Tok('velocity correction')

            def update(self):
                self.v = w.uf('model', w.uv.v, w.elev.v, F.bathymetry_2d.v)

            def get_advective_velocity_correction_factor(self):
                return self.factor
        if so.solve_suspended_sediment or so.solve_exner:
            d['sediment_model'] = Model()
        self.model = d['sediment_model']
        self.spare = Val(0.0, 'no sediment')
        sol.__dict__.update(d)
        sol.__dict__['compute_mesh_stats'] = lambda: None
        sol.__dict__['set_time_step'] = lambda: None

    def vec(self, k):
        from firedrake import as_vector
        self.co[k] = Constant((1.0 + len(self.co), 2.0))
        return self.co[k]

    # -- state
    def comp(self, f):
        return [p.v for p in f.parts] if isinstance(f, MixedVal) else [f.v]

    def hold(self, f, name, args):
        flat = []
        for a in args:
            flat += a if isinstance(a, list) else [a]
        parts = f.parts if isinstance(f, MixedVal) else [f]
        new = [self.uf(f'{name}:{i}', *flat) for i in range(len(parts))]
        for p, v in zip(parts, new):
            p.v = v

    def update(self, what, cls, eq, sol, fields, dt, bnd, opts, t, forc, *more):
        """one application of an integrator: an arbitrary function of everything it was given"""
        keys = sorted(fields)
        st = [fields[k] for k in keys if isinstance(fields[k], (Val, MixedVal))]
        sig = f'{what}|{cls}|{eq}|{bnd}|{",".join(k for k in keys if isinstance(fields[k], (Val, MixedVal)))}|{id(opts)}|{forc}'
        args = [self.comp(sol), dt, t] + [self.comp(s) for s in st] + list(more)
        if str(eq) in ('eq sediment', 'eq exner'):
            args.append(self.model.v)
        self.hold(sol, sig, args)

    # -- integrator classes become recorders
    def patches(self):
        w = self
        out = []
        seen = set()

        def copy(to, frm):
            for p, q in zip(to.parts, frm.parts):
                p.v = q.v

        def mk(kind, cls):
            def init(self, *a, **kw):
                names = ['equation', 'solution', 'fields', 'dt', 'options', 'bnd_conditions']
                if kind == 'PressureProjectionPicard':
                    names.insert(1, 'equation_mom')
                d = dict(zip(names, a))
                d.update(kw)
                self.__dict__.update(d)
                self.kind = kind
                self.initial = None
                if kind in STAGES:
                    self.n_stages = STAGES[kind]
                if kind == 'SSPIMEX':
                    self.n_stages = 3
                    z = lambda: SimpleNamespace(solution_old=MixedVal(Val(0.0), Val(0.0)))
                    self.erk, self.dirk = z(), z()
                w.made.append(self)

            def initialize(self, solution):
                self.initial = solution
                if kind == 'SSPIMEX':
                    copy(self.erk.solution_old, solution)

            def set_dt(self, dt):
                self.dt = dt

            def go(self, what, t, forc, *more):
                w.log.append((what, str(self.equation)))
                if kind == 'SSPIMEX':       # the explicit part continues from its own stored old solution
                    copy(self.solution, self.erk.solution_old)
                w.update(what, self.kind, self.equation, self.solution, self.fields, self.dt, self.bnd_conditions, self.options, t,
                         forc, *more)
                if kind == 'SSPIMEX':
                    copy(self.erk.solution_old, self.solution)

            def advance(self, t, update_forcings=None):
                go(self, 'advance', t, update_forcings)

            def advance_picard(self, t, update_forcings=None, update_lagged=True, update_fields=True):
                go(self, 'picard', t, update_forcings, 1.0 if update_lagged else 0.0, 1.0 if update_fields else 0.0)

            def solve_stage(self, i_stage, t, update_forcings=None):
                go(self, f'stage{i_stage}', t, update_forcings)
            return [(cls, n, f) for n, f in (('__init__', init), ('initialize', initialize), ('set_dt', set_dt), ('advance', advance),
                                             ('advance_picard', advance_picard), ('solve_stage', solve_stage))]
        for kind, cls in CLASSES.items():
            out += mk(kind, cls)

        class Poisson:
            def __init__(self, q, uv, w_, elev, depth, dt, bnd, solver_parameters=None):
                self.a = (q, uv, w_, elev)
                if not hasattr(w, 'poisson'):
                    w.poisson = self
                self.given = (depth, dt, bnd)

            def solve(self, solve_w=True):
                q, uv, w_, elev = self.a
                st = [q.v, uv.v, w_.v, elev.v]
                uv.v, q.v = w.uf('poisson uv', *st), w.uf('poisson q', *st)
                elev.v = w.uf('poisson elev', *st)
                if solve_w:
                    w_.v = w.uf('poisson w', *st)
        for m in (s2, ct):
            out.append((m, 'print_output', lambda *a: None))
        out.append((s2, 'DepthIntegratedPoissonSolver', Poisson))
        out.append((s2, 'TestFunction', lambda V: Tok('test ' + str(V))))
        out.append((s2.shallowwater_eq, 'ShallowWaterMomentumEquation', lambda *a, **k: Tok('eq mom')))
        out.append((s2, 'Function', lambda V, **k: Val(0.0, 'no sediment')))
        out.append((ct, 'Function', lambda v, **k: v.copy()))
        return out


def state(w):
    s = {'uv': w.uv.v, 'elev': w.elev.v, 'bed': w.F.bathymetry_2d.v}
    for k, v in w.tr.items():
        for i, c in enumerate(w.comp(v)):
            s[f'{k}/{i}'] = c
    for k in ('sediment_2d', 'q_2d', 'w_2d'):
        if k in w.F and w.cfg.get('sediment' if k == 'sediment_2d' else 'nh'):
            s[k] = w.F[k].v
    if w.model is not None:
        s['model'] = w.model.v
    return s


def reference(w, h, cfg, t, dt, forc):
    """the documented composition, on the same state objects"""
    F, o, co = w.F, w.o, w.co
    sysb = lambda i, s: w.sol.bnd_functions.get(s) if i % 2 == 0 else (w.sol.bnd_functions.get(s[:-3]) if ',' not in s else {})
    uf = w.update

    def swe(what='advance', *more):
        uf(what, cfg.get('swe', 'CrankNicolson'), 'eq sw', w.sw, {}, dt, w.sol.bnd_functions['shallow_water'], o.swe_timestepper_options,
           t, forc, *more)

    def tracer(i, s, what='advance', *more):
        uf(what, cfg.get('tracer', 'CrankNicolson'), 'eq ' + s, w.tr[s], {'uv_2d': w.uv, 'elev_2d': w.elev}, dt, sysb(i, s),
           o.tracer_timestepper_options, t, forc, *more)
        if cfg.get('limiter'):
            w.hold(w.tr[s], 'limiter', [w.comp(w.tr[s])])

    def fs(what):
        uf(what, cfg.get('fs', 'CrankNicolson'), 'eq fs', w.elev, {'uv': w.uv}, dt, w.sol.bnd_functions['shallow_water'],
           o.nh_model_options.free_surface_timestepper_options, t, forc)

    if cfg.get('nh'):
        ufs = cfg.get('update_fs', True)
        kind = cfg.get('swe', 'CrankNicolson')
        e0 = w.elev.v
        if kind in STAGES:
            n = STAGES[kind]
            multi = ufs and cfg.get('fs') in STAGES and cfg.get('fs') != 'BackwardEuler'
            for i in range(n):
                swe(f'stage{i}')
                w.poisson.solve(solve_w=i == n - 1)
                if ufs and (multi or i == n - 1):
                    w.elev.v = e0
                    fs(f'stage{i}' if multi else 'advance')
                    e0 = w.elev.v
        else:
            swe()
            w.poisson.solve()
            if ufs:
                w.elev.v = e0
                fs('advance')
        return
    if not cfg.get('tracer_only'):
        swe()
    p = cfg.get('picard', 1)
    for k in range(p):
        for i, s in enumerate(w.systems):
            if p == 1:
                tracer(i, s)
            else:
                tracer(i, s, 'picard', 1.0 if k == 0 else 0.0, 1.0 if k == p - 1 else 0.0)
    if w.model is not None:
        w.model.update()
    so = o.sediment_model_options
    if cfg.get('sediment'):
        uf('advance', cfg.get('sed_stepper', 'CrankNicolson'), 'eq sediment', F.sediment_2d, {'uv_2d': w.uv, 'elev_2d': w.elev}, dt,
           w.sol.bnd_functions['sediment'], so.sediment_timestepper_options, t, forc)
        if cfg.get('limiter'):
            w.hold(F.sediment_2d, 'limiter', [w.comp(F.sediment_2d)])
    if cfg.get('exner'):
        uf('advance', cfg.get('exn_stepper', 'CrankNicolson'), 'eq exner', F.bathymetry_2d,
           {'elev_2d': w.elev, 'sediment': F.sediment_2d if cfg.get('sediment') else w.spare}, dt,
           w.sol.bnd_functions['shallow_water'], so.exner_timestepper_options, t, forc)


COEFS = {'sw': {'linear_drag_coefficient': 'linear_drag_coefficient', 'quadratic_drag_coefficient': 'quadratic_drag_coefficient',
                'manning_drag_coefficient': 'manning_drag_coefficient', 'nikuradse_bed_roughness': 'nikuradse_bed_roughness',
                'viscosity_h': 'horizontal_viscosity', 'coriolis': 'coriolis_frequency', 'wind_stress': 'wind_stress',
                'lax_friedrichs_velocity_scaling_factor': 'lax_friedrichs_velocity_scaling_factor',
                'atmospheric_pressure': 'atmospheric_pressure', 'momentum_source': 'momentum_source_2d',
                'volume_source': 'volume_source_2d'},
         'fs': {'volume_source': 'volume_source_2d'},
         'sediment': {'diffusivity_h-sediment_2d': 'sed-horizontal_diffusivity',
                      'lax_friedrichs_tracer_scaling_factor': 'lax_friedrichs_tracer_scaling_factor'},
         'exner': {'morfac': 'sed-morphological_acceleration_factor', 'porosity': 'sed-porosity'}}


def run(cfg0):
    def go(h):
        cfg = dict(cfg0)
        for k, v in list(cfg.items()):
            if v == '?':
                cfg[k] = h.bool('opt_' + k)
            elif isinstance(v, tuple):
                cfg[k] = h.choice('opt_' + k, v)
        if cfg.get('tracer_only') and not cfg.get('tracers'):
            h.assume(False)
        forc = object()
        fn = Tok('forcings')
        wr = World(h, cfg)      # reference world, only its state and options are used
        wa = World(h, cfg)
        with patched(*wa.patches()):
            wa.sol.create_timestepper()
            T = wa.sol.timestepper
            # every equation has one integrator, with its own solution, coefficients
            eqs = [str(m.equation) for m in wa.made]
            exp = [] if cfg.get('tracer_only') else ['eq sw']
            exp += ['eq ' + s for s in wa.systems]
            exp += ['eq sediment'] if cfg.get('sediment') else []
            exp += ['eq exner'] if cfg.get('exner') else []
            exp += ['eq fs'] if cfg.get('nh') and cfg.get('update_fs', True) else []
            h.prove(sorted(eqs) == sorted(exp), f'one integrator for each enabled equation: {eqs}')
            for m in wa.made:
                name = str(m.equation)[3:]
                want = dict(COEFS.get(name, {}))
                for l in name.split(','):
                    if name in wa.systems:
                        want.update({f'diffusivity_h-{l}': 'diff-' + l, f'source-{l}': 'src-' + l,
                                     'lax_friedrichs_tracer_scaling_factor': 'lax_friedrichs_tracer_scaling_factor',
                                     'tracer_advective_velocity_factor': 'tracer_advective_velocity_factor'})
                for k, q in want.items():
                    h.prove(m.fields.get(k) is wa.co[q], f'{name}: coefficient {k} is the option {q}')
                if name == 'sediment':
                    h.prove(m.fields.get('tracer_advective_velocity_factor') is wa.model.factor,
                            'sediment: the velocity correction of the sediment model')
            T.initialize(wa.sw)
            for m in wa.made:
                name = str(m.equation)[3:]
                own = {'sw': wa.sw, 'fs': wa.elev, 'exner': wa.F.bathymetry_2d}.get(name)
                if own is None:
                    own = wa.F.sediment_2d if name == 'sediment' else wa.tr[name]
                h.prove(m.solution is own, f'{name}: advances its own field')
                h.prove(m.initial is own, f'{name}: initialised with its own field')
            wr.model_ = None
            if cfg.get('nh'):
                wr.poisson = type(wa.poisson)(wr.F.q_2d, wr.uv, wr.F.w_2d, wr.elev, None, None, None)
                h.prove(wa.poisson.a == (wa.F.q_2d, wa.uv, wa.F.w_2d, wa.elev), 'pressure solver works on the solution fields')
            ids = {}
            wr.o = wa.o             # same option objects (identity is part of what an update depends on)
            wr.sol.__dict__['bnd_functions'] = wa.sol.bnd_functions
            dt = wa.sol.dt
            for st in range(2):
                t = h.real(f't{st}', lo=-10**6, hi=10**9)
                T.advance(t, fn)
                reference(wr, h, cfg, t, dt, fn)
                a, b = state(wa), state(wr)
                for k in b:
                    h.prove_eq(a[k], b[k], f'step {st + 1}: {k} after the documented sequence of updates')
                if st == 0:
                    dt = h.real('dt_new', gt=0, hi=100)
                    T.set_dt(dt)
                    for m in wa.made:
                        if not cfg.get('nh') or str(m.equation) != 'x':
                            h.prove_eq(m.dt, dt, f'{m.equation}: new time step')
    return go


A, B, M = 'salt_2d', 'temp_2d', 'p_2d,q_2d'
H = lambda n, paths=1, **cfg: ck.harness(n, run(cfg), expect_paths=paths)
H('swe')
for k in CLASSES:
    H(f'swe[{k}]', swe=k)
H('tracer', 2, tracers=[A], tracer_only='?')
H('two tracers', 4, tracers=[A, B], tracer_only='?', limiter='?')
H('mixed system', tracers=[M])
H('mixed system and tracer', tracers=[M, A])
H('tracer and mixed system', 2, tracers=[A, M], picard=(1, 2))
H('tracers,picard', 8, tracers=[B, A], tracer_only='?', limiter='?', picard=(2, 3))
H('sediment', 2, sediment=True, limiter='?')
H('exner', 2, exner=True, limiter='?')
H('sediment and exner', 2, sediment=True, exner=True, limiter='?')
H('tracers, sediment, exner', 24, tracers=[A, B], sediment='?', exner='?', limiter='?', picard=(1, 2, 3))
H('integrators', 60, tracers=[A], sediment=False, swe=tuple(CLASSES),
  tracer=('SSPRK33', 'ForwardEuler', 'SteadyState', 'BackwardEuler', 'DIRK22', 'DIRK33', 'CrankNicolson'))
H('sediment integrators', 30, sediment=True, exner=True, swe='DIRK22',
  sed_stepper=('SSPRK33', 'ForwardEuler', 'BackwardEuler', 'DIRK22', 'DIRK33', 'CrankNicolson'),
  exn_stepper=('SSPRK33', 'ForwardEuler', 'BackwardEuler', 'DIRK22', 'DIRK33', 'CrankNicolson'))
for k in CLASSES:
    same = k if k in ('SSPRK33', 'DIRK22', 'DIRK33') else 'CrankNicolson'
    H(f'nonhydrostatic[{k}]', nh=True, swe=k, fs=same)
    H(f'nonhydrostatic[{k},be]', nh=True, swe=k, fs='BackwardEuler')
    H(f'nonhydrostatic[{k},no correction]', nh=True, swe=k, fs=same, update_fs=False)


def setup(h):
    """create_equations: each enabled equation is built once on its own space with the shared depth, flow and sediment model"""
    cfg = {'tracers': h.choice('tracers', [[], [A], [A, M]]), 'sediment': h.bool('sediment'), 'exner': h.bool('exner'),
           'limiter': h.bool('limiter'), 'nh': h.bool('nh')}
    w = World(h, cfg)
    w.o.polynomial_degree = h.choice('degree', [0, 1])
    made = {}

    E = s2
    from thetis.sediment_model import SedimentModel
    w.sol.__dict__['mesh2d'] = 'mesh'

    def rec(name, cls):
        sig = inspect.signature(cls.__init__)

        def make(*a, **k):
            t = Tok(name)
            made.setdefault(name, []).append((sig.bind(None, *a, **k).arguments, t))
            return t
        return make
    for s in w.systems:
        w.o.tracer_fields[s] = w.tr[s]
    del w.sol.__dict__['equations'], w.sol.__dict__['tracer_limiter']
    with patched((E.shallowwater_eq, 'ShallowWaterEquations', rec('sw', E.shallowwater_eq.ShallowWaterEquations)),
                 (E.shallowwater_eq, 'FreeSurfaceEquation', rec('fs', E.shallowwater_eq.FreeSurfaceEquation)),
                 (E.tracer_eq_2d, 'TracerEquation2D', rec('tracer', E.tracer_eq_2d.TracerEquation2D)),
                 (E.sediment_eq_2d, 'SedimentEquation2D', rec('sediment', E.sediment_eq_2d.SedimentEquation2D)),
                 (E.exner_eq, 'ExnerEquation', rec('exner', E.exner_eq.ExnerEquation)),
                 (E.limiter, 'VertexBasedP1DGLimiter', rec('limiter', E.limiter.VertexBasedP1DGLimiter)),
                 (E, 'TestFunction', lambda V: Tok('test')), (E, 'print_output', lambda *a: None),
                 (E, 'element_continuity', lambda e: SimpleNamespace(horizontal='cg')),
                 (Val, 'function_space', lambda s: Space(s)), (MixedVal, 'function_space', lambda s: Space(s)),
                 (type(w.o.sediment_model_options), 'sediment_model_class', staticmethod(rec('model', SedimentModel)))):
        w.sol.create_equations()
    n = {k: len(v) for k, v in made.items()}
    sed = cfg['sediment'] or cfg['exner']
    want = {'sw': 1, 'tracer': len(w.systems), 'sediment': int(cfg['sediment']), 'exner': int(cfg['exner']), 'fs': int(cfg['nh']),
            'model': int(sed), 'limiter': int(cfg['limiter'] and w.o.polynomial_degree > 0 and (cfg['sediment'] or len(w.systems) > 0))}
    for k, v in want.items():
        h.prove(n.get(k, 0) >= v, f'{k}: {n.get(k, 0)} built for {v}')
    q = w.sol.equations
    h.prove(q.sw.bnd_functions is w.sol.bnd_functions['shallow_water'], 'shallow water boundary data')

    def given(what, k, **exp):
        a, t = made[what][k]
        for key, v in exp.items():
            got = a.get(key)
            if isinstance(got, Space):
                got = got.of
            h.prove(got is v or (isinstance(v, str) and got == v), f'{what}: {key} is the one of the solver')
        return t
    m = None
    if sed:
        m = given('model', 0, uv=w.uv, elev=w.elev, depth=w.sol.depth)
        h.prove(w.sol.sediment_model is m, 'one sediment model, shared by the sediment, the bed and the stepping')
    h.prove(q.sw is given('sw', 0, function_space=w.sw, depth=w.sol.depth, options=w.o), 'shallow water equations registered')
    for i, s in enumerate(w.systems):
        h.prove(q[s] is given('tracer', i, system=s, function_space=w.tr[s], depth=w.sol.depth, options=w.o, velocity=w.uv),
                f'{s}: registered')
    if cfg['sediment']:
        h.prove(q.sediment is given('sediment', 0, depth=w.sol.depth, options=w.o, sediment_model=m), 'sediment equation registered')
    if cfg['exner']:
        h.prove(q.exner is given('exner', 0, function_space=w.F.bathymetry_2d, depth=w.sol.depth, sediment_model=m),
                'bed equation registered')
    if want['limiter']:
        h.prove(w.sol.tracer_limiter is made['limiter'][0][1], 'the limiter that the stepping applies')


class Space:
    def __init__(self, of):
        self.of = of

    def ufl_element(self):
        return None


ck.harness('create_equations', setup, expect_paths=96)
ck.finish()
