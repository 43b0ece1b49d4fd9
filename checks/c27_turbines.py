"""C27: turbine thrust, power, placement"""
from stand import *
from types import SimpleNamespace
import numpy as np
import firedrake as fd
from symx.point import Point
import thetis.turbines as tb

ck = Check('C27', 'turbines')
TECHNIQUE = 'the UFL expressions built by the real turbine classes and the real placement constraints are evaluated on symbolic' \
            ' speeds, depths, tables and positions; z3 compares with actuator disc relations and exact derivatives'
ck.encoded('turbines.TidalTurbine.*', 'turbines.ConstantThrustTurbine.*', 'turbines.TabulatedThrustTurbine.*',
           'turbines.linearly_interpolate_table', 'turbines.TidalTurbineFarm.*', 'turbines.DiscreteTidalTurbineFarm.add_turbines',
           'turbines.TurbineFunctionalCallback.*', 'turbines.MinimumDistanceConstraints.*', 'turbines.load_turbine')
ck.bound('one point with arbitrary velocity and depth; tables of 2-4 entries; farms of 1-3 turbines; up to 4 turbines in the'
         ' constraints; 3 consecutive callback evaluations')
ck.assumed('shear profile combined with upwind correction of a tabulated turbine is left out (thrust and power use different'
           ' reference speeds there)')
RHO = 1000      # checked below
PI = math.pi


class S:
    """point with velocity, depth and turbine parameters as terminals"""
    m = fd.UnitTriangleMesh()
    U, D = fd.VectorFunctionSpace(m, 'DG', 1), fd.FunctionSpace(m, 'DG', 1)
    uv, depth, dens = fd.Function(U, name='uv'), fd.Function(D, name='depth'), fd.Function(D, name='density')


def pt(h):
    p = Point(h, S.m, 'dx')
    for f, n in ((S.uv, 'uv'), (S.depth, 'depth'), (S.dens, 'density')):
        p.coeff(f, n)
    return p


def speed(p):
    u, v = p.vals(S.uv)
    s = u*u + v*v
    return s.sqrt() if is_sym(s) else math.sqrt(s)


def options(h, p, kind, n=2, power=True, support=True, **kw):
    """(options, values)"""
    o, v = SimpleNamespace(apply_shear_profile=False, shear_alpha=7.0, shear_beta=0.4, rel_hub_height=None,
                           structure_type='bottom-fixed', power_coefficient=None, power_coefficients=None), SimpleNamespace()

    def par(name, **b):
        c = fd.Constant(1.0)
        x = p.constant(c, name, **b)
        setattr(v, name, x)
        return c
    o.diameter = par('diameter', lo=1, hi=50)
    o.projected_diameter = None
    o.C_support = par('C_support', lo=0, hi=2) if support else 0.
    o.A_support = par('A_support', lo=0, hi=50) if support else 0.
    if not support:
        v.C_support = v.A_support = 0
    if kw.get('projected'):
        o.projected_diameter = par('projected', lo=1, hi=50)
    else:
        v.projected = v.diameter
    if kind == 'constant':
        o.thrust_coefficient = par('CT', gt=0, hi=1)
        if power:
            o.power_coefficient = par('CP', gt=0, hi=1)
    else:
        o.thrust_speeds = [par(f's{i}', lo=0, hi=20) for i in range(n)]
        o.thrust_coefficients = [par(f'CT{i}', lo=0, hi=1) for i in range(n)]
        if power:
            o.power_coefficients = [par(f'CP{i}', lo=0, hi=1) for i in range(n)]
        for i in range(n - 1):
            h.assume(getattr(v, f's{i + 1}') >= getattr(v, f's{i}') + 0.1)
    return o, v


def root(x):
    return x.sqrt() if is_sym(x) else math.sqrt(x)


def optimum(ct):
    """power coefficient of an actuator disc"""
    return ct*(1 + root(1 - ct))/2


def table(v, name, n, x, h):
    """value of the table at speed x; None where rounding or convention decides"""
    s = [getattr(v, f's{i}') for i in range(n)]
    if not h.symbolic and any(abs(x - q) < 1e-6 for q in s):
        return None
    c = [getattr(v, f'{name}{i}') if hasattr(v, f'{name}{i}') else optimum(getattr(v, f'CT{i}')) for i in range(n)]
    if bool(x < s[0]) or bool(x > s[-1]):
        return 0
    if bool(x == s[-1]):
        return None
    for i in range(n - 1):
        if bool(x < s[i + 1]):
            return c[i] + (c[i + 1] - c[i])*(x - s[i])/(s[i + 1] - s[i])


def make(kind, o, upwind):
    return (tb.ConstantThrustTurbine if kind == 'constant' else tb.TabulatedThrustTurbine)(o, upwind_correction=upwind)


def thrust(kind, n, power):
    def run(h):
        with pt(h) as p:
            o, v = options(h, p, kind, n, power)
            t = make(kind, o, False)
            x = speed(p)
            for f, nm in ((t.thrust_coefficient, 'CT'), (t.power_coefficient, 'CP')):
                e = f(S.uv)
                got = p.expr(e)
                if kind == 'constant':
                    want = getattr(v, nm) if hasattr(v, nm) else optimum(v.CT)
                else:
                    want = table(v, nm, n, x, h)
                if want is not None:
                    h.prove_eq(got, want, f'{nm} at that speed', tol=Fr(1, 10**9))
    return run


def drag(kind, upwind, support, projected):
    """friction coefficient and power of a turbine in water of the given depth"""
    def run(h):
        h.prove(float(tb.physical_constants['rho0']) == RHO, 'density of water')
        with pt(h) as p:
            n = 2
            o, v = options(h, p, kind, n, True, support, projected=projected)
            d = p.value(S.depth)
            h.assume(d >= 5)
            h.assume(d <= 500)
            x = speed(p)
            h.assume(x <= 15)
            t = make(kind, o, upwind)
            f = frac if h.symbolic else float
            area = f(PI)*v.diameter*v.diameter/4
            ct = v.CT if kind == 'constant' else table(v, 'CT', n, x, h)
            if ct is None:
                return
            fric = ct*area + v.C_support*v.A_support
            if upwind:
                blk = fric/(v.projected*d)
                h.assume(blk <= 0.9)
                al = (1 + root(1 - blk))/2
            else:
                al = 1
            h.prove_eq(p.expr(t.friction_coefficient(S.uv, S.depth)), fric/(2*al*al), 'drag is half the thrust area, for the upstream speed',
                       tol=Fr(1, 10**7), scale=1e3)
            up = x/al
            cp = v.CP if kind == 'constant' else table(v, 'CP', n, up, h)
            if cp is None:
                return
            P = p.expr(t.power(S.uv, S.depth))
            ref = RHO*area*cp*up*up*up/2
            h.prove_eq(P, ref, 'power', tol=Fr(1, 10**6), scale=1e9)
    return run


def radicand(r):
    """c if r was computed as the cube root of c"""
    a = ctx().fnargs.get(str(r.e)) if is_sym(r) else None
    if a is not None and a[0] == 'root' and a[1] == 3:
        return a[2] if is_sym(a[2]) else SymReal(a[2])


def shear(structure, alpha=1):
    """rotor average: cube root of the weighted mean of the cubed speeds over the rotor (power law profile)"""
    def run(h):
        with pt(h) as p:
            o, v = options(h, p, 'constant', support=False)
            o.apply_shear_profile = True
            o.structure_type = structure
            o.shear_alpha = float(alpha)
            o.shear_beta = 0.5
            hub = fd.Constant(1.0)
            o.rel_hub_height = hub
            hv = p.constant(hub, 'hub', lo=1, hi=100)
            d = p.value(S.depth)
            h.assume(d >= 5)
            h.assume(d <= 200)
            z0 = hv if structure == 'bottom-fixed' else d - hv
            h.assume(z0 - v.diameter/2 >= 0.01)
            h.assume(z0 + v.diameter/2 <= d)
            t = make('constant', o, False)
            w = [Fr(q) for q in ('0.052', '0.0903', '0.1099', '0.1212', '0.1266', '0.1266', '0.1212', '0.1099', '0.0903', '0.052')]
            h.prove(len(t.rotor_weightings) == 10 and all(abs(a - float(b)) < 1e-12 for a, b in zip(t.rotor_weightings, w)), 'rotor weights')
            x = speed(p)
            h.assume(x <= 10)
            c = 0
            for i in range(10):
                z = z0 - v.diameter/2 + v.diameter*(Fr(i, 9) if h.symbolic else i/9)
                s = z/((Fr(1, 2) if h.symbolic else 0.5)*d)
                s = x*(s if alpha == 1 else root(s))
                c = c + (w[i] if h.symbolic else float(w[i]))*s*s*s
            r = p.expr(t.rotor_averaged_velocity(S.uv, S.depth))
            cube = radicand(r)
            h.prove_eq(r*r*r if cube is None else cube, c, 'rotor averaged speed', tol=Fr(1, 10**6), scale=1e3)
            if alpha != 1:
                return
            P = p.expr(t.power(S.uv, S.depth))
            f = frac if h.symbolic else float
            h.prove_eq(P, RHO*f(PI)*v.diameter*v.diameter/8*v.CP*r*r*r, 'power of the rotor averaged speed', tol=Fr(1, 10**6), scale=1e9)
    return run


def shear_args(h):
    o, v = SimpleNamespace(apply_shear_profile=True, shear_alpha=7.0, shear_beta=0.4, rel_hub_height=None, structure_type='bottom-fixed',
                           diameter=18., projected_diameter=None, C_support=0., A_support=0., thrust_coefficient=0.8, power_coefficient=0.4), None
    def refused(f):
        try:
            f()
            return False
        except ValueError:
            return True
    t = make('constant', o, False)
    h.prove(refused(lambda: t.rotor_averaged_velocity(S.uv, S.depth)), 'hub height is required')
    o.rel_hub_height, o.structure_type = 10.0, 'flying'
    t = make('constant', o, False)
    h.prove(refused(lambda: t.rotor_averaged_velocity(S.uv, S.depth)), 'unknown structure types are refused')
    o = SimpleNamespace(**{**o.__dict__, 'thrust_speeds': [1, 2, 3], 'thrust_coefficients': [0.1, 0.2], 'power_coefficients': None})
    h.prove(refused(lambda: make('table', o, False)), 'thrust table of another length is refused')
    o.thrust_coefficients, o.power_coefficients = [0.1, 0.2, 0.3], [0.1, 0.2]
    h.prove(refused(lambda: make('table', o, False)), 'power table of another length is refused')
    x = h.real('x')
    h.prove_eq(x, x, 'reached')


# ---- farms ----------------------------------------------------------------------------------------------------------
def farm(h):
    """number of turbines and power are integrals over the farm"""
    with pt(h) as p:
        o, v = options(h, p, 'constant', support=False)
        fo = SimpleNamespace(turbine_type='constant', turbine_options=o, upwind_correction=False, break_even_wattage=3.5)
        dx = fd.dx(domain=S.m, degree=3)
        F = tb.TidalTurbineFarm(S.dens, dx, fo)
        forms = []
        with patched((tb, 'assemble', lambda f: forms.append(f) or 7.0)):
            h.prove(F.number_of_turbines() == 7.0 and F.power_output(S.uv, S.depth) == 7.0, 'assembled values are returned')
        d = p.value(S.dens)
        h.prove_eq(p.integral(forms[0]), d, 'number of turbines is the integral of the density', scale=1e2)
        h.prove_eq(p.integral(forms[1]), d*p.expr(F.turbine.power(S.uv, S.depth)), 'power is that of each turbine times the density',
                   tol=Fr(1, 10**6), scale=1e9)
        h.prove(F.break_even_wattage == 3.5, 'break even wattage')
        h.prove(all(i.metadata().get('estimated_polynomial_degree', i.metadata().get('quadrature_degree')) == 3 for f in forms for i in f.integrals()),
                'measure of the farm')
        h.prove_eq(p.expr(F.friction_coefficient(S.uv, S.depth)), p.expr(F.turbine.friction_coefficient(S.uv, S.depth)), 'drag of its turbine', scale=1e3)


def bump(n):
    """density of discrete turbines: one bump per turbine, of unit integral, within the projected radius"""
    def run(h):
        with pt(h) as p:
            o, v = options(h, p, 'constant', support=False, projected=True)
            xs = [(fd.Constant(1.0), fd.Constant(1.0)) for i in range(n)]
            X = [[p.constant(c, f'x{i}{j}', lo=-100, hi=100) for j, c in enumerate(q)] for i, q in enumerate(xs)]
            fo = SimpleNamespace(turbine_type='constant', turbine_options=o, upwind_correction=True, break_even_wattage=0.0,
                                 turbine_coordinates=xs)
            F = tb.DiscreteTidalTurbineFarm(S.m, fd.dx(domain=S.m, degree=3), fo)
            h.prove(F.turbine.upwind_correction is True, 'upwind correction is switched on')
            got = p.expr(F.turbine_density)
            r = v.projected/2
            total = 0
            f = frac if h.symbolic else float
            for a, b in X:
                e, g = (p.x[0] - a)/r, (p.x[1] - b)/r
                for q in (e, g):
                    if not h.symbolic and abs(abs(q) - 1) < 1e-3:
                        return
                if bool(abs(e) < 1) and bool(abs(g) < 1):
                    ex = lambda q: (sym_fn('exp', 1 - 1/(1 - q*q)) if is_sym(q) else math.exp(1 - 1/(1 - q*q)))
                    total = total + ex(e)*ex(g)/(r*r)
            # integral of exp(1 - 1/(1 - x^2)) over (-1, 1), squared
            h.prove_eq(got*f(1.45661), total, 'density of the turbines', tol=Fr(1, 10**4), scale=1)
    return run


def performance(h):
    """running mean of the power and profit over the steps taken"""
    nf = 2
    steps = 3
    P = [[h.real(f'P{k}{i}', lo=0, hi=100) for i in range(nf)] for k in range(steps)]
    N = [h.real(f'N{i}', lo=0, hi=100) for i in range(nf)]
    B = [h.real(f'B{i}', lo=0, hi=100) for i in range(nf)]
    dt = h.real('dt', lo=0.1, hi=100)
    k = [0]
    args = []

    class Farm:
        def __init__(self, i):
            self.i, self.break_even_wattage = i, B[i]

        def number_of_turbines(self):
            return N[self.i]

        def power_output(self, uv, depth):
            args.append((uv, depth))
            return P[k[0]][self.i]
    so = SimpleNamespace(tidal_farms=[Farm(i) for i in range(nf)], dt=dt, simulation_time=h.real('t0', lo=0, hi=10**6), iteration=5, i_export=2, options=SimpleNamespace(timestep=h.real('dt_opt', lo=0.1, hi=100), no_exports=True, output_directory='x', simulation_initial_date=None),
                         fields=SimpleNamespace(solution_2d='sol', bathymetry_2d='bath'), comm=fd.COMM_WORLD)
    with patched((tb, 'split', lambda s: (s + '.uv', s + '.eta'))):
        cb = tb.TurbineFunctionalCallback(so, append_to_log=False, export_to_hdf5=False)
    for j in range(steps):
        k[0] = j
        cur, avg, prof = cb()
        for i in range(nf):
            h.prove_eq(cur[i], P[j][i], 'current power')
            m = sum(P[q][i] for q in range(j + 1))/(j + 1)
            h.prove_eq(avg[i], m, 'mean power', tol=0 if h.symbolic else 1e-9)
            h.prove_eq(prof[i], m - B[i]*N[i], 'profit: mean power less the break even power of all turbines', tol=0 if h.symbolic else 1e-9)
    h.prove(all(a == ('sol.uv', 'bath') for a in args) and len(args) == nf*steps, 'each farm once per step, from velocity and depth')


# ---- placement ------------------------------------------------------------------------------------------------------
class Quiet(np.ndarray):
    """the comparison that only decides whether a message is printed does not split the analysis"""
    def __le__(self, o):
        return [False]


class NP:
    def __getattr__(self, k):
        return getattr(np, k)

    @staticmethod
    def array(a, **k):
        return np.array(a, dtype=object).view(Quiet)

    @staticmethod
    def zeros(s, **k):
        return np.full(s, 0, dtype=object)


def distance(n):
    def run(h):
        m = [h.real(f'm{i}', lo=-100, hi=100) for i in range(2*n)]
        e = [h.real(f'e{i}', lo=-100, hi=100) for i in range(2*n)]
        D = h.real('D', gt=0, hi=100)
        C = tb.MinimumDistanceConstraints([[0.0, 0.0]]*n, D)
        pp = [(tb, 'print_output', lambda *q: None)] + ([(tb, 'numpy', NP())] if h.symbolic else [])
        a = lambda x: np.array(x, dtype=object if h.symbolic else float)

        def F(x):
            with patched(*pp):
                return C.function(a(x))
        pairs = [(i, j) for i in range(n) for j in range(i)]
        h.prove(C.length() == len(pairs), 'one constraint per pair')
        f0 = F(m)
        h.prove(len(f0) == len(pairs), 'one constraint per pair')
        d2 = {q: (m[2*q[0]] - m[2*q[1]])**2 + (m[2*q[0] + 1] - m[2*q[1] + 1])**2 for q in pairs}
        far = True
        ok = True
        for q in pairs:
            far = far and bool(d2[q] > D*D)
        for c in f0:
            ok = ok and bool(c > 0)
        if h.symbolic or all(abs(d2[q] - D*D) > 1e-6 for q in pairs):
            h.prove(far == ok, 'all positive exactly if every pair is farther apart than the distance')
        h.prove_eq(sum(f0), sum(d2.values()) - len(pairs)*D*D, 'each pair once', tol=0 if h.symbolic else 1e-6)
    return run


def jacobian(n):
    """the constraints are quadratic: a central difference of any size is the exact directional derivative"""
    def run(h):
        m = [h.real(f'm{i}', lo=-100, hi=100) for i in range(2*n)]
        e = [h.real(f'e{i}', lo=-1, hi=1) for i in range(2*n)]
        C = tb.MinimumDistanceConstraints([[0.0, 0.0]]*n, 5.0)
        a = lambda x: np.array(x, dtype=object if h.symbolic else float)
        pp = [(tb, 'print_output', lambda *q: None)] + ([(tb, 'numpy', NP())] if h.symbolic else [])
        with patched(*pp):
            J = C.jacobian(a(m))
            fp, fm = C.function(a([p + q for p, q in zip(m, e)])), C.function(a([p - q for p, q in zip(m, e)]))
        h.prove(J.shape == (C.length(), 2*n), 'shape')
        for k in range(C.length()):
            h.prove_eq(sum(J[k, i]*e[i] for i in range(2*n)), (fp[k] - fm[k])/2, 'derivative of the constraint', tol=0 if h.symbolic else 1e-6)
    return run


def load(h):
    """definition files"""
    kind = h.choice('kind', ['constant', 'table', 'default'])
    support, discrete, incl = h.bool('support'), h.bool('discrete'), h.bool('include')
    v = {k: h.real(k, lo=0.1, hi=1) for k in ('ct', 'cp', 'd', 'hub', 'cs', 'as', 'a', 'b', 'c', 'e', 'f', 'g')}
    data = {'name': 'T', 'diameter': v['d']}
    if kind != 'default':
        data['turbine_thrust_def'] = kind
    if kind == 'table':
        data['curves'] = {'speeds': [v['a'], v['b']], 'thrust': [v['c'], v['e']], 'power': [v['f'], v['g']]}
    else:
        data['thrust_coefficient'], data['power_coefficient'] = v['ct'], v['cp']
    if support:
        data['support_structure'] = {'type': 'floating', 'rel_hub_height': v['hub'], 'C_support': v['cs'], 'A_support': v['as']}
    up = h.choice('upwind', [None, True, False])
    if up is not None:
        data['upwind_correction'] = up
    made = []

    def cls(name):
        def f():
            o = SimpleNamespace(kind=name, turbine_options=SimpleNamespace())
            made.append(o)
            return o
        return f
    ext = h.choice('file', ['t.json', 't.yaml', 't.yml'])

    class F:
        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass
    used = []
    with patched((tb, 'open', lambda p: F()), (tb, 'json', SimpleNamespace(load=lambda f: used.append('json') or data)),
                 (tb, 'yaml', SimpleNamespace(safe_load=lambda f: used.append('yaml') or data)),
                 (tb, 'DiscreteTidalTurbineFarmOptions', cls('discrete')), (tb, 'TidalTurbineFarmOptions', cls('continuous'))):
        o = tb.load_turbine(ext, S.m, include_support=incl, discrete=discrete)
    t = o.turbine_options
    h.prove(used == ['json' if ext == 't.json' else 'yaml'], 'file format')
    h.prove(o.kind == ('discrete' if discrete else 'continuous'), 'kind of farm')
    h.prove(o.turbine_type == ('table' if kind == 'table' else 'constant'), 'kind of turbine')
    h.prove_eq(t.diameter, v['d'], 'diameter')
    if kind == 'table':
        for got, want in zip(list(t.thrust_speeds) + list(t.thrust_coefficients) + list(t.power_coefficients), 'abcefg'):
            h.prove_eq(got, v[want], 'table')
    else:
        h.prove_eq(t.thrust_coefficient, v['ct'], 'thrust')
        h.prove_eq(t.power_coefficient, v['cp'], 'power')
    if support and incl:
        h.prove(t.structure_type == 'floating', 'structure')
        h.prove_eq(t.rel_hub_height, v['hub'], 'hub height')
        h.prove_eq(t.C_support, v['cs'], 'support drag')
        h.prove_eq(t.A_support, v['as'], 'support area')
    else:
        h.prove(not hasattr(t, 'C_support') and not hasattr(t, 'structure_type'), 'no support structure')
    if discrete:
        h.prove(o.upwind_correction is (True if up is None else up), 'upwind correction')


for k, n in (('constant', 1), ('table', 2), ('table', 3), ('table', 4)):
    for pw in (True, False):
        ck.harness(f'thrust[{k}{n}-{"given" if pw else "derived"}]', thrust(k, n, pw), max_paths=200)
for k in ('constant', 'table'):
    for up in (True, False):
        ck.harness(f'drag[{k}-{"upwind" if up else "plain"}]', drag(k, up, True, False), max_paths=200)
ck.harness('drag[constant-upwind-projected]', drag('constant', True, False, True))
for s in ('bottom-fixed', 'floating'):
    ck.harness(f'shear[{s}]', shear(s))
    ck.harness(f'shear2[{s}]', shear(s, 2))
ck.harness('arguments', shear_args)
ck.harness('farm', farm)
for n in (1, 2) + ((3,) if ck.thorough else ()):
    ck.harness(f'bump[{n}]', bump(n), max_paths=200)
ck.harness('performance', performance)
for n in (1, 2, 3):
    ck.harness(f'distance[{n}]', distance(n), max_paths=600)
for n in (2, 3, 4):
    ck.harness(f'jacobian[{n}]', jacobian(n), max_paths=600)
ck.harness('load', load, max_paths=400)
ck.finish()
