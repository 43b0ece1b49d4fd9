"""C31: option containers: domains, paired option sets, freezing"""
from stand import *
import math
import builtins
import numpy as np
import traitlets
import firedrake as fd
import thetis.configuration as cf
import thetis.options as op
import thetis.utility as ut

ck = Check('C31', 'options')
TECHNIQUE = 'the real trait validators, observers and freezing code run on symbolic numbers (carried by float and int subclasses),' \
            ' symbolic flags and histories; z3 proves accepted <=> in the documented domain on every path'
ck.encoded('configuration.Positive*/NonNegative*/Bounded*.validate', 'configuration.Firedrake*/DatetimeTraitlet.validate',
           'configuration.OptionsBase.update', 'configuration.Frozen*.__setattr__', 'configuration.attach_paired_options',
           'utility.FrozenClass/unfrozen', 'options.ModelOptions2d.set_timestepper_type/add_tracer_2d/add_tracer_system_2d',
           'options.GLSModelOptions.apply_defaults')
ck.bound('every numeric value and the kinds listed for non-numbers; histories of up to three assignments; nesting depth 3')
ck.assumed('traitlets dispatch is real; numbers enter as float/int subclasses whose comparisons are symbolic')


def carrier(base):
    class C(base):
        def __new__(cls, v):
            o = base.__new__(cls, 1)
            o.v = v
            return o

        def __gt__(self, o):
            return self.v > getattr(o, 'v', o)

        def __ge__(self, o):
            return self.v >= getattr(o, 'v', o)

        def __lt__(self, o):
            return self.v < getattr(o, 'v', o)

        def __le__(self, o):
            return self.v <= getattr(o, 'v', o)

        def __eq__(self, o):
            return self is o
        __hash__ = object.__hash__

        def __ne__(self, o):
            return self is not o

        def __repr__(self):
            return 'number'
        __str__ = __repr__

        def __format__(self, f):
            return 'number'
    return C


FS, FI = carrier(float), carrier(int)


def num(h, name, kind, **kw):
    if kind == 'float':
        v = h.real(name, **kw)
        return FS(v) if h.symbolic else float(v)
    v = h.int(name, **kw)
    return FI(v) if h.symbolic else int(v)


def val(x):
    return getattr(x, 'v', x)


def attempt(f, *bad):
    try:
        f()
        return True
    except bad:
        return False


# ---- numeric domains -----------------------------------------------------------------------------------------------------------
def pos(v):
    return v > 0


def nonneg(v):
    return v >= 0


def theta(v):
    return both(v >= 0.5, v <= 1)


def anyv(v):
    return True


def both(a, b):
    if is_sym(a) or is_sym(b):
        return SymBool(z3.And(rawb(a), rawb(b)))
    return bool(a and b)


def rawb(x):
    return x.e if isinstance(x, SymBool) else z3.BoolVal(bool(x))


F, N = 'float', 'int'
DOM = {
    'ModelOptions2d': dict(timestep=(F, pos), simulation_export_time=(F, pos), simulation_end_time=(F, pos, None), cfl_2d=(F, pos),
                           cfl_3d=(F, pos), polynomial_degree=(N, nonneg), tracer_picard_iterations=(N, pos), verbose=(N, anyv)),
    'ModelOptions3d': dict(timestep=(F, pos), timestep_2d=(F, pos), simulation_export_time=(F, pos),
                           simulation_end_time=(F, pos, None), polynomial_degree=(N, nonneg)),
    'NonhydrostaticModelOptions': dict(q_degree=(N, nonneg, None)),
    'CrankNicolsonSWETimeStepperOptions2d': dict(implicitness_theta=(F, theta)),
    'CrankNicolsonTracerTimeStepperOptions2d': dict(implicitness_theta=(F, theta)),
    'PressureProjectionSWETimeStepperOptions2d': dict(implicitness_theta=(F, theta), picard_iterations=(N, pos)),
    'ImplicitSWETimeStepperOptions3d': dict(implicitness_theta=(F, theta)),
    'PacanowskiPhilanderModelOptions': dict(max_viscosity=(F, pos), alpha=(F, pos), exponent=(F, pos)),
    'GLSModelOptions': dict({k: (F, pos) for k in 'schmidt_nb_tke schmidt_nb_psi cmu0 k_min psi_min eps_min len_min visc_min'
                             ' diff_min galperin_clim'.split()},
                            **{k: (F, anyv) for k in 'p m n c1 c2 c3_minus c3_plus f_wall ri_st kappa'.split()}),
    'LinearEquationOfStateOptions': dict(rho_ref=(F, nonneg), s_ref=(F, nonneg), th_ref=(F, anyv), alpha=(F, anyv),
                                         beta=(F, anyv)),
    'ConstantTidalTurbineOptions': dict(diameter=(F, pos), projected_diameter=(F, pos, None), C_support=(F, nonneg),
                                        A_support=(F, nonneg), rel_hub_height=(F, pos, None), thrust_coefficient=(F, pos),
                                        power_coefficient=(F, pos, None), shear_alpha=(F, anyv), shear_beta=(F, anyv)),
    'DiscreteTidalTurbineFarmOptions': dict(quadrature_degree=(N, pos), break_even_wattage=(F, nonneg)),
}
OTHER = ['none', 'nan', 'inf', '-inf', 'str', 'list', 'complex']


def numeric(cls, name, spec):
    kind, dom = spec[0], spec[1]
    optional = len(spec) > 2

    def run(h):
        o = getattr(op, cls)()
        first = num(h, 'old', kind)
        okf = attempt(lambda: setattr(o, name, first), traitlets.TraitError, AssertionError)
        h.prove(iff(okf, dom(val(first))), 'first accepted')
        old = getattr(o, name)
        how = h.choice('kind', ['float'] + ['int']*(dom is not anyv) + OTHER if kind == F else ['int'] + OTHER)
        if how == 'int' and kind == F:
            # a float on the left of a comparison looks past the carrier of a Python int
            x = h.choice('whole number', [-3, -1, 0, 1, 5])
            want = bool(dom(x))
        elif how in ('float', 'int'):
            x = num(h, 'new', how)
            want = dom(val(x))
        else:
            x = dict(none=None, nan=math.nan, inf=math.inf, str='1', list=[1], complex=1j).get(how, -math.inf)
            want = how == 'none' and optional or how in ('inf', '-inf') and kind == F and bool(dom(x)) \
                or how == 'nan' and kind == F and dom is anyv
        ok = attempt(lambda: setattr(o, name, x), traitlets.TraitError, AssertionError)
        h.prove(iff(ok, want), 'accepted')
        got = getattr(o, name)
        if ok:
            h.prove(got is x or not is_sym(val(x)) and (got == x or x != x and got != got), 'stored')
        else:
            h.prove(got is old or got == old, 'old value kept')
    return run


def iff(ok, want):
    if is_sym(want):
        return want if ok else SymBool(z3.Not(rawb(want)))
    return bool(want) == ok


for cls, d in DOM.items():
    for name, spec in d.items():
        ck.harness(f'domain[{cls}.{name}]', numeric(cls, name, spec), expect_paths=4)


# ---- kinds of field valued options ---------------------------------------------------------------------------------------------
import datetime
import pytz
mesh = fd.UnitTriangleMesh()
V0, V1 = fd.FunctionSpace(mesh, 'CG', 1), fd.VectorFunctionSpace(mesh, 'CG', 1)
f0, f1 = fd.Function(V0), fd.Function(V1)
c0, c1 = fd.Constant(1.), fd.Constant((1., 2.))
KIND = {
    'constant': (c0, 'CKS'), 'constant vector': (c1, 'CKV'), 'function': (f0, 'KS'), 'vector function': (f1, 'KV'),
    'expression': (2*f0 + c0, 'S'), 'vector expression': (2*f1, 'V'), 'component': (f1[0], 'S'), 'gradient': (fd.grad(f0), 'V'),
    'float': (1., ''), 'integer': (1, ''), 'string': ('1', ''), 'none': (None, ''), 'array': (np.ones(2), ''),
    'aware date': (datetime.datetime(2000, 1, 1, tzinfo=pytz.utc), 'D'), 'naive date': (datetime.datetime(2000, 1, 1), ''),
    'dict': ({'a': 1}, 'P'), 'list': ([1], ''),
}
FIELD = {
    'ModelOptions2d': dict(horizontal_velocity_scale='C', horizontal_viscosity_scale='C', horizontal_diffusivity_scale='C',
                           norm_smoother='C', lax_friedrichs_velocity_scaling_factor='C', horizontal_viscosity='Sn',
                           coriolis_frequency='Sn', wind_stress='Vn', atmospheric_pressure='Sn', momentum_source_2d='Vn',
                           volume_source_2d='Sn', linear_drag_coefficient='Sn', quadratic_drag_coefficient='Sn',
                           manning_drag_coefficient='Sn', nikuradse_bed_roughness='Sn', sipg_factor='S', sipg_factor_tracer='S',
                           wetting_and_drying_alpha='S', tracer_advective_velocity_factor='S', simulation_initial_date='Dn',
                           simulation_end_date='Dn'),
    'ModelOptions3d': dict(vertical_velocity_scale='C', smagorinsky_coefficient='C', bottom_roughness='Sn',
                           horizontal_diffusivity='Sn', vertical_diffusivity='Sn', vertical_viscosity='Sn',
                           momentum_source_3d='Vn', salinity_source_3d='Sn', temperature_source_3d='Sn', constant_salinity='C',
                           constant_temperature='C', internal_pg_scalar='Cn'),
    'SedimentModelOptions': dict(horizontal_diffusivity='Kn', average_sediment_size='Sn', bed_reference_height='Sn', porosity='K',
                                 max_angle='C', morphological_acceleration_factor='C', morphological_viscosity='Sn',
                                 sediment_density='S', slope_effect_parameter='C'),
    'TracerFieldOptions': dict(function='Sn', source='Sn', diffusivity='Sn'),
    'ExplicitSWETimeStepperOptions2d': dict(solver_parameters='P'),
    'SWETimeStepperOptions3d': dict(solver_parameters='P'),
}


def field(cls, name, dom):
    def run(h):
        o = getattr(op, cls)()
        old = getattr(o, name)
        k = h.choice('kind', list(KIND))
        x, tags = KIND[k]
        if k == 'expression' or k == 'vector expression':
            pass
        want = dom[0] in tags or k == 'none' and 'n' in dom
        ok = attempt(lambda: setattr(o, name, x), traitlets.TraitError)
        h.prove(ok == want, f'{k} accepted')
        h.prove(getattr(o, name) is (x if ok else old), f'{k} stored or old value kept')
    return run


for cls, d in FIELD.items():
    for name, dom in d.items():
        ck.harness(f'kind[{cls}.{name}]', field(cls, name, dom), expect_paths=2)


# ---- paired option sets --------------------------------------------------------------------------------------------------------
TR = dict(SSPRK33='ExplicitTracerTimeStepperOptions2d', ForwardEuler='ExplicitTracerTimeStepperOptions2d',
          BackwardEuler='SemiImplicitTracerTimeStepperOptions2d', CrankNicolson='CrankNicolsonTracerTimeStepperOptions2d',
          DIRK22='SemiImplicitTracerTimeStepperOptions2d', DIRK33='SemiImplicitTracerTimeStepperOptions2d')
SW = dict(SSPRK33='ExplicitSWETimeStepperOptions2d', ForwardEuler='ExplicitSWETimeStepperOptions2d',
          BackwardEuler='SemiImplicitSWETimeStepperOptions2d', CrankNicolson='CrankNicolsonSWETimeStepperOptions2d',
          DIRK22='SemiImplicitSWETimeStepperOptions2d', DIRK33='SemiImplicitSWETimeStepperOptions2d',
          SteadyState='SteadyStateTimeStepperOptions2d', PressureProjectionPicard='PressureProjectionSWETimeStepperOptions2d',
          SSPIMEX='IMEXSWETimeStepperOptions2d')
PAIR = [
    ('ModelOptions2d', 'swe_timestepper_type', 'swe_timestepper_options', SW, 'CrankNicolson'),
    ('ModelOptions2d', 'tracer_timestepper_type', 'tracer_timestepper_options',
     dict(TR, SteadyState='SteadyStateTimeStepperOptions2d'), 'CrankNicolson'),
    ('SedimentModelOptions', 'sediment_timestepper_type', 'sediment_timestepper_options', TR, 'CrankNicolson'),
    ('SedimentModelOptions', 'exner_timestepper_type', 'exner_timestepper_options', TR, 'CrankNicolson'),
    ('NonhydrostaticModelOptions', 'free_surface_timestepper_type', 'free_surface_timestepper_options', TR, 'CrankNicolson'),
    ('ModelOptions3d', 'timestepper_type', 'timestepper_options',
     dict(LeapFrog='LeapFrogTimeStepperOptions3d', SSPRK22='SSPRKTimeStepperOptions3d'), 'SSPRK22'),
    ('ModelOptions3d', 'turbulence_model_type', 'turbulence_model_options',
     dict(gls='GLSModelOptions', pacanowski='PacanowskiPhilanderModelOptions'), 'gls'),
    ('ModelOptions3d', 'equation_of_state_type', 'equation_of_state_options',
     dict(full='EquationOfStateOptions', linear='LinearEquationOfStateOptions'), 'full'),
    ('TidalTurbineFarmOptions', 'turbine_type', 'turbine_options',
     dict(constant='ConstantTidalTurbineOptions', table='TabulatedTidalTurbineOptions'), 'constant'),
    ('DiscreteTidalTurbineFarmOptions', 'turbine_type', 'turbine_options',
     dict(constant='ConstantTidalTurbineOptions', table='TabulatedTidalTurbineOptions'), 'constant'),
]
NUMERIC = {'CrankNicolson': ('implicitness_theta', theta), 'pacanowski': ('alpha', pos), 'gls': ('k_min', pos),
           'linear': ('alpha', anyv), 'constant': ('diameter', pos), 'table': ('diameter', pos)}


def paired(cls, sel, opts, table, default):
    def run(h):
        construct = h.bool('selector given to the constructor')
        vals = list(table) + ['nonsense']
        if construct:
            s0 = h.choice('constructor selector', list(table))
            o = getattr(op, cls)(**{sel: s0})
        else:
            s0 = default
            o = getattr(op, cls)()
        if h.bool('read first'):
            getattr(o, opts)
        cur = s0
        for i in (0, 1) if not construct else (0,):
            s = h.choice(f's{i}', vals)
            before = getattr(o, opts) if s == 'nonsense' else None
            ok = attempt(lambda: setattr(o, sel, s), traitlets.TraitError)
            h.prove(ok == (s in table), f'selector {i} accepted')
            if ok:
                cur = s
            else:
                h.prove(getattr(o, opts) is before, f'options kept {i}')
            h.prove(getattr(o, sel) == cur, f'selector {i}')
            h.prove(type(getattr(o, opts)).__name__ == table[cur], f'options match selector {i}')
            if cur in NUMERIC and ok:
                q, dom = NUMERIC[cur]
                x = num(h, f'x{i}', 'float')
                ok = attempt(lambda: setattr(getattr(o, opts), q, x), traitlets.TraitError, AssertionError)
                h.prove(iff(ok, dom(val(x))), f'option accepted {i}')
                h.prove((getattr(getattr(o, opts), q) is x) == ok if h.symbolic else True, f'option set {i}')
        fresh = getattr(op, cls)()
        h.prove(getattr(fresh, sel) == default and type(getattr(fresh, opts)).__name__ == table[default], 'fresh container')
        h.prove(getattr(fresh, opts) is not getattr(o, opts), 'option sets not shared')
    return run


for c_, s_, o_, t_, d_ in PAIR:
    ck.harness(f'paired[{c_}.{s_}]', paired(c_, s_, o_, t_, d_), expect_paths=4)


def independent(cls, sel, opts, table, default):
    """assignments to one container leave every other container alone, nested option sets included"""
    def run(h):
        s = h.choice('selector', list(table))
        a, b = getattr(op, cls)(), getattr(op, cls)()
        setattr(a, sel, s), setattr(b, sel, s)
        A, B = getattr(a, opts), getattr(b, opts)

        def walk(A, B, path, depth=2):
            h.prove(A is not B, f'{path} not shared')
            for k in dir(A):
                if k.startswith('_'):
                    continue
                x, y = getattr(A, k), getattr(B, k)
                if isinstance(x, traitlets.HasTraits) and depth:
                    walk(x, y, f'{path}.{k}', depth - 1)
                elif isinstance(x, dict) and k.startswith('solver_parameters'):
                    h.prove(x is not y, f'{path}.{k} not shared')
                    for q in x:
                        if isinstance(x[q], dict):
                            h.prove(x[q] is not y[q], f'{path}.{k}[{q}] not shared')
        walk(A, B, opts)
        for k, t in type(A).class_traits().items():
            if isinstance(t, traitlets.Float):
                x = num(h, k, 'float')
                was = getattr(B, k)
                attempt(lambda: setattr(A, k, x), traitlets.TraitError, AssertionError)
                h.prove(getattr(B, k) is was or getattr(B, k) == was, f'{k} of the other container')
                break
    return run


for c_, s_, o_, t_, d_ in PAIR:
    ck.harness(f'independent[{c_}.{s_}]', independent(c_, s_, o_, t_, d_), expect_paths=2)


# ---- update --------------------------------------------------------------------------------------------------------------------
def updated(kind):
    def run(h):
        a, b = op.ModelOptions2d(), op.ModelOptions2d()
        s = h.choice('source selector', ['CrankNicolson', 'PressureProjectionPicard', 'SSPRK33'])
        if h.bool('source options read first'):
            a.swe_timestepper_options
        a.swe_timestepper_type = s
        x = num(h, 'theta', 'float', lo=0.5, hi=1)
        if s != 'SSPRK33':
            a.swe_timestepper_options.implicitness_theta = x
        a.timestep = dt = num(h, 'dt', 'float', lo=1, hi=100)
        if h.bool('target read first'):
            b.swe_timestepper_options
        b.swe_timestepper_type = h.choice('target selector', ['CrankNicolson', 'DIRK22', 'PressureProjectionPicard'])
        b.swe_timestepper_options.solver_parameters = {'mine': 1}
        if kind == 'container':
            if s == 'CrankNicolson':
                h.assume(False) if h.symbolic and not ('swe_timestepper_type' in a._trait_values) else None
            b.update(a)
        else:
            items = [('swe_timestepper_options', a.swe_timestepper_options), ('timestep', dt), ('swe_timestepper_type', s)]
            r = h.choice('order', [0, 1, 2])
            items = items[r:] + items[:r]
            b.update(dict(items))
        h.prove(b.swe_timestepper_type == s, 'selector')
        h.prove(type(b.swe_timestepper_options).__name__ == SW[s], 'options match selector')
        if s != 'SSPRK33':
            h.prove_eq(val(b.swe_timestepper_options.implicitness_theta), val(x), 'customised option')
        h.prove_eq(val(b.timestep), val(dt), 'time step')
    return run


for k in ('container', 'dictionary'):
    ck.harness(f'update[{k}]', updated(k), expect_paths=4)


def bad_update(h):
    o = op.ModelOptions2d()
    was = o.timestep
    x = num(h, 'dt', 'float')
    ok = attempt(lambda: o.update({'timestep': x}), traitlets.TraitError, AssertionError)
    h.prove(iff(ok, val(x) > 0), 'accepted')
    h.prove((o.timestep is x or o.timestep == x) if ok else o.timestep == was, 'value')
    h.prove(not attempt(lambda: o.update({'timestepp': 1.}), TypeError), 'unknown name')


ck.harness('update[validates]', bad_update, expect_paths=2)


# ---- freezing ------------------------------------------------------------------------------------------------------------------
def freeze(base, mod):
    """whether a name is an attribute already is symbolic, so the outcome covers every name"""
    def run(h):
        class K(base):
            name = 'k'
        o = K()
        frozen, known = h.bool('frozen'), h.bool('known')
        o._isfrozen = frozen
        names = []
        if h.symbolic:
            ctxm = patched((mod, 'hasattr', lambda q, k: known))
        else:
            ctxm = patched()
            if known:
                object.__setattr__(o, 'zz', 0)
        with ctxm:
            ok = attempt(lambda: setattr(o, 'zz', 1), TypeError)
        h.prove(ok == (known or not frozen), 'accepted iff known or not frozen')
        h.prove(('zz' in o.__dict__ and o.zz == 1) if ok else o.__dict__.get('zz', 0) == 0, 'stored iff accepted')
    return run


for b_, m_ in ((ut.FrozenClass, ut), (cf.FrozenHasTraits, cf), (cf.FrozenConfigurable, cf)):
    ck.harness(f'freeze[{b_.__name__}]', freeze(b_, m_), expect_paths=4)

CONTAINERS = sorted({c for c in vars(op).values() if isinstance(c, type) and issubclass(c, cf.OptionsBase)
                     and c.__module__ == 'thetis.options'}, key=lambda c: c.__name__)


def frozen_containers(h):
    cls = h.choice('container', CONTAINERS)
    o = cls()
    own = [n for n in cls.class_traits() if n not in ('parent', 'config', 'log')]
    near = [n + 's' for n in own[:2]] + [n[:-1] for n in own[:2]] + [n.upper() for n in own[:1]] + ['a', 'timestep_']
    k = h.choice('name', range(7))
    n = near[k % len(near)]
    known = hasattr(o, n)
    ok = attempt(lambda: setattr(o, n, 1), TypeError, traitlets.TraitError)
    h.prove(known or not ok, f'{cls.__name__}.{n} refused')
    h.prove(known or not hasattr(o, n), f'{cls.__name__}.{n} not created')


ck.harness('freeze[containers]', frozen_containers, expect_paths=30)


class Boom(Exception):
    pass


def nest(h):
    """nested calls of unfrozen methods which may raise and be caught at any level"""
    raises = [h.bool(f'raise{i}') for i in range(3)]
    late = [h.bool(f'late{i}') for i in range(3)]
    catches = [h.bool(f'catch{i}') for i in range(2)]

    class O(ut.FrozenClass):
        @ut.unfrozen
        def m(self, d=0):
            setattr(self, f'new{d}', 1)
            if raises[d] and not late[d]:
                raise Boom()
            if d < 2:
                try:
                    self.m(d + 1)
                except Boom:
                    if not catches[d]:
                        raise
            ok = attempt(lambda: setattr(self, f'after{d}', 1), TypeError)
            h.prove(ok, f'still open after inner call {d}')
            if raises[d]:
                raise Boom()
    o = O()
    for rep in range(2):
        escaped = not attempt(o.m, Boom)
        gone = raises[0] or (raises[1] or raises[2] and not catches[1]) and not catches[0]
        h.prove(escaped == gone, f'exception passes on {rep}')
        ok = attempt(lambda: setattr(o, f'outside{rep}', 1), TypeError)
        h.prove(not ok, f'closed after the outermost call {rep}')


ck.harness('unfrozen', nest, expect_paths=8)


# ---- helpers of the 2D options -------------------------------------------------------------------------------------------------
def set_type(h):
    o = op.ModelOptions2d()
    sus, ex, nh = h.bool('suspended'), h.bool('exner'), h.bool('nonhydrostatic')
    o.sediment_model_options.solve_suspended_sediment = sus
    o.sediment_model_options.solve_exner = ex
    o.nh_model_options.solve_nonhydrostatic_pressure = nh
    t = h.choice('type', list(TR) + ['SSPIMEX'])
    kw = {}
    if t == 'CrankNicolson':
        kw['implicitness_theta'] = num(h, 'theta', 'float', lo=0.5, hi=1)
    if t in ('SSPRK33', 'ForwardEuler'):
        kw['use_automatic_timestep'] = h.bool('auto')
    kw['ad_block_tag'] = 'tag'
    ok = attempt(lambda: o.set_timestepper_type(t, **kw), traitlets.TraitError)
    h.prove(ok == (t in TR), 'accepted')
    if not ok:
        return
    parts = [('swe', o, 'swe_timestepper', SW, True), ('tracer', o, 'tracer_timestepper', TR, True),
             ('suspended', o.sediment_model_options, 'sediment_timestepper', TR, sus),
             ('exner', o.sediment_model_options, 'exner_timestepper', TR, ex),
             ('free surface', o.nh_model_options, 'free_surface_timestepper', TR, nh)]
    for what, c, stem, tab, active in parts:
        if not active:
            continue
        h.prove(getattr(c, stem + '_type') == t, f'{what} type')
        q = getattr(c, stem + '_options')
        h.prove(type(q).__name__ == tab[t], f'{what} options')
        for k, v in kw.items():
            h.prove(getattr(q, k) is v or getattr(q, k) == v, f'{what} {k}')


ck.harness('set_timestepper_type', set_type, expect_paths=8)


def add_tracer(h):
    o = op.ModelOptions2d()
    labels = ['a_2d', 'b_2d', 'c_2d']
    n = h.choice('n', [1, 2, 3])
    cons = [h.bool(f'conservative{i}') for i in range(n)]
    src = [h.choice(f's{i}', [None, f0, c0]) for i in range(n)]
    dup = h.choice('bad', [None, 'duplicate', 'space', 'comma', 'file'])
    for i in range(n):
        o.add_tracer_2d(labels[i], f'name {i}', f'File{i}', shortname=f'S{i}' if i else None, unit=f'u{i}', source=src[i],
                        diffusivity=c0 if i == 1 else None, function=f0 if i == 0 else None, use_conservative_form=cons[i])
    if dup:
        lab = dict(duplicate='a_2d', space='a b', comma='a,b', file='q_2d')[dup]
        ok = attempt(lambda: o.add_tracer_2d(lab, 'n', 'F x' if dup == 'file' else 'F'), AssertionError)
        h.prove(not ok, f'{dup} refused')
    h.prove(list(o.tracer) == labels[:n] and list(o.tracer_fields) == labels[:n], 'order of tracers')
    for i in range(n):
        t = o.tracer[labels[i]]
        h.prove(t.metadata == {'name': f'name {i}', 'filename': f'File{i}', 'shortname': f'S{i}' if i else f'name {i}',
                               'unit': f'u{i}'}, f'metadata {i}')
        h.prove(t.source is src[i] and t.diffusivity is (c0 if i == 1 else None) and t.function is (f0 if i == 0 else None)
                and t.use_conservative_form == cons[i], f'fields {i}')


ck.harness('add_tracer_2d', add_tracer, expect_paths=20)
Q2 = fd.Function(V0*V0)


def add_system(h):
    o = op.ModelOptions2d()
    labels = ['a_2d', 'b_2d']
    given = h.choice('given', [(), (0,), (1,), (0, 1)])
    cons = [h.bool(f'conservative{i}') for i in range(2)]
    src = [f0, c0]
    fn = h.choice('function', [None, Q2])
    kw = {labels[i]: {'source': src[i], 'use_conservative_form': cons[i]} for i in given}
    try:
        o.add_tracer_system_2d(labels, ['A', 'B'], ['Fa', 'Fb'], units=['x', 'y'], function=fn, **kw)
    except KeyError as e:
        h.prove(False, f'options for some of the tracers only: {e!r}')
        return
    h.prove(list(o.tracer) == labels, 'labels')
    h.prove(list(o.tracer_fields) == ['a_2d,b_2d'] and o.tracer_fields['a_2d,b_2d'] is fn, 'one mixed system')
    for i, l in enumerate(labels):
        t = o.tracer[l]
        h.prove(t.metadata == {'name': 'AB'[i], 'filename': ('Fa', 'Fb')[i], 'shortname': 'AB'[i], 'unit': 'xy'[i]}, f'metadata {i}')
        h.prove(t.source is (src[i] if i in given else None) and t.use_conservative_form == (cons[i] if i in given else False),
                f'options {i}')
        h.prove(t.function is (fn.subfunctions[i] if fn is not None else None), f'function {i}')


ck.harness('add_tracer_system_2d', add_system, expect_paths=8)

GLS = {
    'k-epsilon': dict(p=3, m=1.5, n=-1, cmu0=.5477, schmidt_nb_tke=1., schmidt_nb_psi=1.3, c1=1.44, c2=1.92, c3_plus=1.,
                      c3_minus=-.52, f_wall=1., k_min=1e-6, eps_min=1e-14, psi_min=1e-14),
    'k-omega': dict(p=-1, m=.5, n=-1, cmu0=.5477, schmidt_nb_tke=2., schmidt_nb_psi=2., c1=.555, c2=.833, c3_plus=1.,
                    c3_minus=-.52, f_wall=1., k_min=7.6e-6, eps_min=1e-14, psi_min=1e-14),
    'Generic Length Scale': dict(p=2, m=1, n=-.67, cmu0=.5477, schmidt_nb_tke=.8, schmidt_nb_psi=1.07, c1=1., c2=1.22, c3_plus=1.,
                                 c3_minus=.05, f_wall=1., k_min=1e-6, eps_min=1e-14, psi_min=1e-14),
}


def gls_defaults(h):
    """whatever was set before, the closure's published parameters (Warner et al. 2005, tables 1 and 2) are in force"""
    o = op.GLSModelOptions()
    c = h.choice('closure', list(GLS) + ['k-kl'])
    for k in GLS['k-epsilon']:
        setattr(o, k, num(h, k, 'float', lo=1, hi=2))
    name = o.closure_name
    ok = attempt(lambda: o.apply_defaults(c), ValueError)
    h.prove(ok == (c in GLS), 'accepted')
    h.prove(o.closure_name == (c if ok else name), 'closure name')
    for k, v in GLS.get(c, {}).items():
        h.prove_eq(val(getattr(o, k)), v, k)


ck.harness('gls_defaults', gls_defaults, expect_paths=4)
ck.finish()
