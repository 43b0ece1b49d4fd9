"""C32: misfit, regularisation and bookkeeping of inversions"""
from stand import *
import types
import numpy as np
import firedrake as fd
import ufl
import ckernel as ckn
from ckernel import SF, exact
from symx.ufleval import Evaluator
import thetis.inversion_tools as it
import thetis.utility as ut
from thetis.solver2d import FlowSolver2d

ck = Check('C32', 'inversion')
TECHNIQUE = 'symbolic execution of the real inversion tools on symbolic observations, model values, times, weights and controls; the' \
            ' misfit and regularisation forms are evaluated node by node and z3 compares them with the documented sums'
ck.encoded('inversion_tools.StationObservationManager.*', 'inversion_tools.MultiStationObservationManager.*',
           'inversion_tools.*RegularizationCalculator', 'inversion_tools.ControlRegularizationManager',
           'inversion_tools.InversionManager.get_cost_function/rf_kwargs/update_progress/consistency_test/taylor_test',
           'inversion_tools.ControlManager.*')
ck.bound('up to 3 stations, 3 observation times each, 3 evaluations; 2 iterations; up to 4 controls in 3 groups')
ck.assumed('point evaluation of a P1 field at mesh vertices, its projection to the same space, and scipy interp1d (stand-in: piecewise'
           ' linear between records, error or fill value outside); pyadjoint tape is a stand-in')


class Terms:
    """terminals of a form on a point set"""
    def __init__(self, i, extra=None):
        self.i, self.extra = i, extra or {}

    def terminal(self, f, comp, side, d):
        assert not d
        if isinstance(f, fd.Function):
            v = f.dat.data if isinstance(f, SF) else np.vectorize(exact, otypes=[object])(f.dat.data_ro)
            i = 0 if f.function_space().ufl_element().family() == 'Real' else self.i
            return v[(i,) + tuple(comp)] if v.ndim > 1 else v[i]
        if isinstance(f, Con):
            return f.v
        k = type(f).__name__
        if (k, comp) in self.extra:
            return self.extra[k, comp]
        raise NotImplementedError(k)


class Con(fd.Constant):
    """a constant that may be symbolic"""
    def __init__(self, v):
        super().__init__(1.0)
        self.v = v

    def assign(self, v):
        self.v = v
        return self

    def __float__(self):
        raise TypeError('symbolic')


class S0(SF):
    def assign(self, o, *a, **k):
        if isinstance(o, Con):
            o = o.v
        if isinstance(o, ufl.core.expr.Expr) and not isinstance(o, fd.Function):
            return self.interpolate(o)
        v = ckn.values(o)
        self.symdat.v[...] = v.copy() if isinstance(v, np.ndarray) else v
        return self

    def interpolate(self, e, **k):
        if isinstance(e, SF) and e.function_space().mesh() is not self.function_space().mesh():
            # point evaluation at vertices of the mesh
            x = self.function_space().mesh().coordinates.dat.data_ro
            y = e.function_space().mesh().coordinates.dat.data_ro
            for i, p in enumerate(x):
                j = int(np.argmin(((y - p)**2).sum(axis=1)))
                assert np.allclose(y[j], p)
                self.symdat.v[i] = e.dat.data[j]
            return self
        for i in range(len(self.symdat.v)):
            self.symdat.v[i] = Evaluator(Terms(i))(e)
        return self

    def project(self, e, **k):
        if isinstance(e, SF) and e.function_space().ufl_element() == self.function_space().ufl_element():
            return self.assign(e)
        if isinstance(e, SF) and e.function_space().ufl_element().family() == 'Real':
            return self.assign(e.dat.data[0])
        raise NotImplementedError('projection')

    def __iadd__(self, o):
        return self.assign(self + o)


def sym_assemble(form, **k):
    (i,) = form.integrals()
    assert i.integral_type() == 'cell'
    f = set(ufl.algorithms.extract_coefficients(form))
    n = max([len(q.dat.data) for q in f if isinstance(q, SF)])
    return sum((Evaluator(Terms(q))(i.integrand()) for q in range(n)), Fr(0))


class FD:
    Function = S0
    Constant = Con
    assemble = staticmethod(sym_assemble)

    def __getattr__(self, k):
        return getattr(fd, k)


class NPX:
    """numpy on symbolic values"""
    def __getattr__(self, k):
        return getattr(np, k)

    @staticmethod
    def isfinite(a):
        return np.array([True if is_sym(v) or isinstance(v, Fr) else np.isfinite(float(v)) for v in np.ravel(a)])

    @staticmethod
    def array(a, dtype=None):
        r = np.array(a, dtype=object) if not (dtype is float and np.asarray(a).dtype == bool) else np.array(a, dtype=int).astype(object)
        try:
            if not any(is_sym(v) or isinstance(v, Fr) for v in r.ravel()):
                return np.array(a, dtype=dtype)
        except Exception:
            pass
        return r

    @staticmethod
    def var(a):
        a = list(np.ravel(a))
        m = sum(a[1:], a[0])/len(a)
        return sum(((x - m)*(x - m) for x in a[1:]), (a[0] - m)*(a[0] - m))/len(a)


class Interp:
    def __init__(self, t, y, bounds_error=True, fill_value=None):
        self.t, self.y, self.be, self.fill = list(t), list(y), bounds_error, fill_value

    def __call__(self, t):
        if t < self.t[0] or t > self.t[-1]:
            if self.be:
                raise ValueError('outside the interpolation range')
            return Fr(self.fill)
        for k in range(len(self.t) - 1):
            if t <= self.t[k+1]:
                return lin(self.t[k:k+2], self.y[k:k+2], t)


def lin(t, y, x):
    return y[0] + (y[1] - y[0])*(x - t[0])/(t[1] - t[0])


def piecewise(t, y, x):
    for k in range(len(t) - 1):
        if x <= t[k+1]:
            return lin(t[k:k+2], y[k:k+2], x)


MESH = fd.UnitSquareMesh(2, 2)
PTS = [(1., .5), (0., 0.), (.5, 1.)]     # not in the order of the mesh
TIMES = [[Fr(0), Fr(10), Fr(30)], [Fr(-5), Fr(20), Fr(40)], [Fr(0), Fr(15), Fr(50)]]


def shims(h):
    if not h.symbolic:
        return []
    return [(it, 'fd', FD()), (it, 'numpy', NPX()), (it, 'interp1d', Interp), (it, 'float', SFloat),
            (it, 'domain_constant', lambda v, mesh, **k: S0(fd.FunctionSpace(mesh, 'R', 0)).assign(v)),
            (it, 'print_output', lambda *a, **k: None), (it, 'warning', lambda *a, **k: None), (it, 'info', lambda *a, **k: None)]


class Obs:
    """one station manager with symbolic data"""
    def __init__(self, h, n, scalar=True, window=False, name='elev'):
        self.h, self.n, self.scalar = h, n, scalar
        m = self.m = it.StationObservationManager(MESH)
        self.t = TIMES[:n]
        c = 1 if scalar else 2
        self.obs = [[[h.real(f'{name}obs{j}.{k}.{q}', lo=-10, hi=10) for k in range(3)] for j in range(n)] for q in range(c)]
        d = [[np.array(v, dtype=object if h.symbolic else float) for v in q] for q in self.obs]
        self.w = None
        kw = {}
        if window:
            self.w = [(h.real(f'{name}start{j}', lo=-100, hi=100), h.real(f'{name}end{j}', lo=-100, hi=100)) for j in range(n)]
            kw = dict(start_times=[a for a, _ in self.w], end_times=[b for _, b in self.w])
        tt = [[q if h.symbolic else float(q) for q in t] for t in self.t]
        m.register_observation_data([f'st{j}' for j in range(n)], name, tt, [p[0] for p in PTS[:n]], [p[1] for p in PTS[:n]],
                                    data=d[0] if scalar else (d[0], d[1]), **kw)
        self.scale = h.real(f'{name}scale', lo=0, hi=100)
        m.cost_function_scaling.assign(self.scale)
        m.construct_evaluator()
        self.V = ut.get_functionspace(MESH, 'CG', 1, vector=not scalar)
        xy = MESH.coordinates.dat.data_ro
        self.vert = [int(np.argmin(((xy - np.array(p))**2).sum(axis=1))) for p in PTS[:n]]
        self.f = (S0 if h.symbolic else fd.Function)(self.V)
        m.set_model_field(self.f)
        self.weight = [1]*n
        self.name = name

    def model(self, k):
        """the model state changes"""
        c = 1 if self.scalar else 2
        self.mod = [[self.h.real(f'{self.name}mod{k}.{j}.{q}', lo=-10, hi=10) for j in range(self.n)] for q in range(c)]
        self.f.assign(0)
        d = self.f.dat.data
        for j, v in enumerate(self.vert):
            if self.scalar:
                d[v] = self.mod[0][j]
            else:
                d[v, 0], d[v, 1] = self.mod[0][j], self.mod[1][j]

    def used(self, j, t):
        return self.w is None or (self.w[j][0] <= t and t <= self.w[j][1])

    def expected(self, t):
        s = 0
        for j in range(self.n):
            if not self.used(j, t):
                continue
            for q in range(len(self.obs)):
                if self.w is not None and (t < self.t[j][0] or t > self.t[j][-1]):
                    o = 0   # the observation window is wider than the data
                else:
                    o = piecewise(self.t[j], self.obs[q][j], t)
                s = s + self.scale*self.weight[j]*(o - self.mod[q][j])**2
        return s

    def variances(self):
        out = []
        for j in range(self.n):
            v = self.obs[0][j] if self.scalar else [root(a*a + b*b) for a, b in zip(self.obs[0][j], self.obs[1][j])]
            m = (v[0] + v[1] + v[2])/3
            out.append(((v[0] - m)**2 + (v[1] - m)**2 + (v[2] - m)**2)/3)
        return out


def root(x):
    return x.sqrt() if is_sym(x) else math.sqrt(x)


def misfit(n, scalar, window, steps=2):
    def run(h):
        with patched(*shims(h)):
            o = Obs(h, n, scalar, window)
            o.weight = [h.real(f'weight{j}', lo=0, hi=100) for j in range(n)]
            for i, x in enumerate(o.m.fs_points_0d_scalar.mesh().coordinates.dat.data_ro):
                o.m.station_weight_0d.dat.data[i] = o.weight[[k for k in range(n) if np.allclose(PTS[k], x)][0]]
            for k in range(steps):
                t = h.real(f't{k}', lo=Fr(0), hi=30 if not window else 60)
                o.model(k)
                J = o.m.eval_cost_function(t)
                h.prove_eq(J, o.expected(t), 'misfit is the weighted sum of squares', scale=1e5, canon=True)
            h.prove(J >= 0 if not h.symbolic else SymBool(raw(J) >= 0), 'misfit is not negative')
            h.prove(len(o.m.simulation_time) == steps and len(o.m.obs_func_list) == steps, 'one record per evaluation')
            h.prove_eq(o.m.simulation_time[-1], t, 'time recorded')
    return run


def outside(h):
    """observations are not extrapolated"""
    with patched(*shims(h)):
        o = Obs(h, 2)
        t = h.real('t', gt=Fr(301, 10), lt=100)
        o.model(0)
        try:
            o.m.eval_cost_function(t)
            ok = False
        except ValueError:
            ok = True
        h.prove(ok, 'no observation outside the data')


def multi(h):
    with patched(*shims(h)):
        a, b = Obs(h, 2, True, False, 'elev'), Obs(h, 1, False, False, 'uv')
        t = h.real('t', lo=0, hi=30)
        m = it.MultiStationObservationManager({'e': a.m, 'u': b.m})
        a.model(0)
        b.model(0)
        h.prove_eq(m.eval_cost_function(t), a.expected(t) + b.expected(t), 'sum over observation types', scale=1e5, canon=True)


class Sta(it.StationObservationManagerBase):
    def __init__(self, h):
        self.h, self.n, self.log = h, 0, []

    def eval_cost_function(self, t):
        self.n += 1
        self.log.append(t)
        self.last = self.h.real(f'misfit{self.n}', lo=0, hi=1e6)
        return self.last

    def collect_time_series(self, i):
        self.log.append(('collect', i))

    def dump_time_series(self):
        pass


def solver(t=None):
    s = object.__new__(FlowSolver2d)
    object.__setattr__(s, 'simulation_time', t)
    return s


def manager(h, sta, **kw):
    return it.InversionManager(sta, no_exports=True, **kw)


def cost(reg, real):
    """total cost: regularisation once plus every misfit once"""
    def run(h):
        calls = []

        class Calc:
            def __init__(self, f, g, scaling=1.0, **k):
                self.k = len(calls)
                calls.append((self.kind, f, g, scaling, k))

            def eval_cost_function(self):
                calls.append('eval')
                return h.real(f'reg{self.k}', lo=0, hi=1e6)

        def kind(n):
            return type(n, (Calc,), {'kind': n})
        p = [(it, n, kind(n)) for n in ('HessianRegularizationCalculator', 'GradientRegularizationCalculator',
                                       'RSpaceRegularizationCalculator')]
        with patched(*p, (it, 'print_output', lambda *a, **k: None), (it, 'warning', lambda *a, **k: None)):
            sta = Sta(h)
            gam = [h.real(f'gamma{i}', lo=0, hi=10) for i in range(2)]
            m = manager(h, sta, penalty_parameters=gam if reg else [], real=real)
            V = fd.FunctionSpace(MESH, 'R', 0) if real else ut.get_functionspace(MESH, 'CG', 1)
            fs = [fd.Function(V) for _ in range(2)]
            m.control_managers = [types.SimpleNamespace(controls=[f]) for f in fs]
            sc = h.real('regscale', lo=0, hi=10)
            s = solver()
            local = h.bool('local')
            fn = m.get_cost_function(s, regularisation_manager=reg or 'Hessian', regularisation_scaling_factor=sc,
                                     use_local_element_size=local)
            want = 0
            if reg:
                made = [c for c in calls if c != 'eval']
                h.prove([c[0] for c in made] == [('RSpace' if real else reg) + 'RegularizationCalculator']*2, 'requested regularisation')
                for c, f, g in zip(made, fs, gam):
                    h.prove(c[1] is f, 'each control once')
                    h.prove_eq(c[2], g, 'penalty parameter of this control')
                    h.prove_eq(c[3], sc, 'global scaling')
                    h.prove(c[4] == ({} if real else {'use_local_element_size': local}), 'element size option')
                want = h.real('reg0', lo=0, hi=1e6) + h.real('reg1', lo=0, hi=1e6)
                h.prove(calls.count('eval') == 2, 'regularisation evaluated once')
            else:
                h.prove(not calls, 'no penalty parameters, no regularisation')
            h.prove_eq(m.J, want, 'cost before the run')
            h.prove_eq(m.J_reg, want, 'regularisation part')
            mis = 0
            for k in range(3):
                t = h.real(f't{k}', lo=0, hi=1e6)
                object.__setattr__(s, 'simulation_time', t)
                fn()
                h.prove_eq(sta.log[-1], t, 'misfit at the time of the solver')
                mis = mis + sta.last
                h.prove_eq(m.J_misfit, mis, 'misfit part', scale=1e6)
                h.prove_eq(m.J, want + mis, 'cost', scale=1e6)
            h.prove(sta.n == 3, 'every export once')
    return run


def weighting(scalar, nman):
    def run(h):
        with patched(*shims(h)):
            obs = [Obs(h, 2, scalar if i == 0 else not scalar, name=f'q{i}') for i in range(nman)]
            for o in obs:
                for v in o.variances():
                    h.assume(v > Fr(1, 100))
            sta = obs[0].m if nman == 1 else it.MultiStationObservationManager({str(i): o.m for i, o in enumerate(obs)})
            m = manager(h, sta)
            s = solver()
            fn = m.get_cost_function(s, weight_by_variance=True)
            for o in obs:
                for i, j in enumerate(o.m.local_station_index):
                    h.prove_eq(o.m.station_weight_0d.dat.data[i]*o.variances()[j], 1, 'weight is the inverse variance of the station',
                               tol=1e-6)
    return run


def windows_of_stations(h):
    """the use indicator follows the station, whatever the order of the points"""
    with patched(*shims(h)):
        o = Obs(h, 3, True, True)
        t = h.real('t', lo=-50, hi=80)
        o.m.update_stations_in_use(t)
        ind = o.m.indicator_0d.dat.data
        x = o.m.fs_points_0d_scalar.mesh().coordinates.dat.data_ro
        for i in range(3):
            j = [k for k in range(3) if np.allclose(PTS[k], x[i])][0]
            h.prove_eq(ind[i], 1 if o.used(j, t) else 0, 'station in use inside its window')
            h.prove(o.m.local_station_index[i] == j, 'station found by its position')


# -- regularisation --------------------------------------------------------------------------------------------------------------------
RECT = fd.RectangleMesh(2, 1, 3., 2.)
RECT.coordinates.dat.data[abs(RECT.coordinates.dat.data_ro[:, 0] - 1.5) < 1e-6, 0] = 1.0     # cells of different size


class FDR:
    """captures the regularisation form"""
    def __init__(self):
        self.forms = []

    def assemble(self, f, **k):
        c = ufl.algorithms.extract_coefficients(f)
        if not c:
            return fd.assemble(f, **k)
        self.forms.append((f, k))
        return f

    def __getattr__(self, k):
        return getattr(fd, k)


class Geo:
    def __init__(self, h, known):
        self.h, self.known = h, known

    def terminal(self, f, comp, side, d):
        assert not d
        for g, v in self.known:
            if f is g:
                return v[comp] if comp else v
        k = type(f).__name__
        if k == 'CellDiameter':
            return self.h.real('h', gt=0, lt=1000)
        if k == 'Circumradius':
            return self.h.real('h', gt=0, lt=1000)/2
        if isinstance(f, fd.Constant):
            return exact(float(f))
        if isinstance(f, (fd.Function, SF)):
            return exact(f.dat.data_ro.ravel()[0])
        raise NotImplementedError(k)


def regular(kind, local):
    def run(h):
        V = ut.get_functionspace(RECT, 'CG', 1)
        gam, sc = h.real('gamma', lo=Fr(1, 100), hi=10), h.real('scale', lo=Fr(1, 100), hi=10)
        a, b = h.real('a', lo=-5, hi=5), h.real('b', lo=-5, hi=5)
        cls = {'gradient': it.GradientRegularizationCalculator, 'hessian': it.HessianRegularizationCalculator}[kind]
        attr = {'gradient': 'GradientRecoverer2D', 'hessian': 'HessianRecoverer2D'}[kind]
        power = {'gradient': 2, 'hessian': 4}[kind]
        f = fd.Function(V, name='control')
        if h.symbolic:
            # penalty and scaling stand for constants of the form
            G, S = fd.Constant(1.0), fd.Constant(1.0)
            log = []

            class Rec:
                def __init__(q, field, *out):
                    q.field, q.out = field, out

                def solve(q):
                    log.append(q)
            F = FDR()
            with patched((it, 'fd', F), (it, attr, Rec)):
                c = cls(f, G, scaling=S, use_local_element_size=local)
                J = c.eval_cost_function()
            h.prove(len(F.forms) == 1 and J is F.forms[0][0], 'one form assembled')
            h.prove(F.forms[0][1].get('ad_block_tag') == 'reg_eval', 'marked for the tape')
            h.prove(len(log) == 1 and log[0].field is f, 'derivative of the control recovered before the evaluation')
            (i,) = J.integrals()
            d = log[0].out[0]
            sh = d.ufl_shape
            v = np.empty(sh, dtype=object)
            for q in np.ndindex(sh):
                v[q] = h.real('d' + ''.join(map(str, q)), lo=-10, hi=10)
            hh = h.real('h', gt=0, lt=1000) if local else exact(min_size())
            got = Evaluator(Geo(h, [(G, gam), (S, sc), (d, v)]))(i.integrand())
            n2 = sum((v[q]*v[q] for q in np.ndindex(sh)), Fr(0))
            p = hh**power
            h.prove_eq(got*6, sc*gam*n2*p, 'penalised derivative scaled by the element size, per unit area', scale=1e6, canon=local,
                       **({} if local else dict(tol=1e-6)))
            h.prove(SymBool(raw(got) >= 0), 'regularisation not negative')
        else:
            x, y = fd.SpatialCoordinate(RECT)
            f.interpolate(a*x + b*y*x if kind == 'hessian' else a*x + b*y)
            c = cls(f, float(gam), scaling=float(sc), use_local_element_size=local)
            J = c.eval_cost_function()
            hh = fd.CellSize(RECT) if local else fd.Constant(min_size())
            if kind == 'gradient':
                n2 = a*a + b*b
            else:
                g, H = fd.Function(ut.get_functionspace(RECT, 'CG', 1, vector=True)), fd.Function(ut.get_functionspace(RECT, 'CG', 1, tensor=True))
                it.HessianRecoverer2D(f, H, g).solve()
                n2 = fd.inner(H, H)
            h.prove_eq(J, float(sc)*float(gam)*fd.assemble(n2*hh**power*fd.dx(domain=RECT))/6, 'penalised derivative scaled by the element'
                       ' size, per unit area', tol=1e-5)
    return run


def min_size():
    D = fd.FunctionSpace(RECT, 'DG', 0)
    return fd.Function(D).interpolate(fd.CellSize(RECT)).dat.data_ro.min()


def rspace(h):
    R = fd.FunctionSpace(RECT, 'R', 0)
    p0, f1 = h.real('prior', lo=-5, hi=5), h.real('value', lo=-5, hi=5)
    gam, sc, eps = h.real('gamma', lo=0, hi=10), h.real('scale', lo=0, hi=10), h.real('eps', lo=Fr(1, 1000), hi=1)
    if h.symbolic:
        class F2(FD):
            def __init__(self):
                self.form = None

            def assemble(self, f, **k):
                if not ufl.algorithms.extract_coefficients(f):
                    return fd.assemble(f, **k)
                (i,) = f.integrals()
                return Evaluator(Terms(0))(i.integrand())*6
        G, S, E = Con(gam), Con(sc), Con(eps)
        f = S0(R).assign(p0)
        with patched((it, 'fd', F2())):
            c = it.RSpaceRegularizationCalculator(f, G, eps=E, scaling=S)
            J0 = c.eval_cost_function()
            f.assign(f1)
            J1 = c.eval_cost_function()
    else:
        f = fd.Function(R).assign(float(p0))
        c = it.RSpaceRegularizationCalculator(f, float(gam), eps=float(eps), scaling=float(sc))
        J0 = c.eval_cost_function()
        f.assign(float(f1))
        J1 = c.eval_cost_function()
    h.prove_eq(J0, 0, 'no penalty at the prior')
    m = p0 if p0 >= 0 else -p0
    m = m if m >= eps else eps
    h.prove_eq(J1*m, sc*gam*(f1 - p0)**2, 'squared distance from the prior over its size', scale=1e3, tol=1e-5)


def reg_manager(h):
    log = []

    class Calc:
        def __init__(self, f, g, scaling=None, **k):
            self.k = len(log)
            log.append((f, g, scaling, k))

        def eval_cost_function(self):
            return h.real(f'r{self.k}', lo=0, hi=10)
    n = h.choice('n', [1, 2, 3])
    g = [h.real(f'g{i}', lo=0, hi=1) for i in range(n)]
    m = it.ControlRegularizationManager(list(range(n)), g, 7, Calc, calculator_kwargs={'z': 1})
    h.prove([q[0] for q in log] == list(range(n)) and all(q[2] == 7 and q[3] == {'z': 1} for q in log), 'one calculator per control')
    for i in range(n):
        h.prove_eq(log[i][1], g[i], 'penalty of the control')
    h.prove_eq(m.eval_cost_function(), sum((h.real(f'r{i}', lo=0, hi=10) for i in range(1, n)), h.real('r0', lo=0, hi=10)),
               'sum over controls')
    try:
        it.ControlRegularizationManager(list(range(n)), g + [1], 7, Calc)
        ok = False
    except AssertionError:
        ok = True
    h.prove(ok, 'one penalty per control required')


# -- bookkeeping -----------------------------------------------------------------------------------------------------------------------
class Block:
    def __init__(self, v):
        self.v = v

    def get_outputs(self):
        return [types.SimpleNamespace(saved_output=self.v)]


def callbacks(h):
    """values taken from the tape after each evaluation"""
    sta = Sta(h)
    m = manager(h, sta)
    for it_ in range(2):
        reg = [h.real(f'reg{it_}.{i}', lo=0, hi=10) for i in range(2)]
        mis = [h.real(f'mis{it_}.{i}', lo=0, hi=10) for i in range(3)]
        tape = types.SimpleNamespace(get_blocks=lambda tag=None: [Block(v) for v in {'reg_eval': reg, 'misfit_eval': mis}[tag]])
        J = h.real(f'J{it_}', lo=0, hi=100)
        with patched((it, 'get_working_tape', lambda: tape), (it, 'float', SFloat if h.symbolic else float)):
            kw = m.rf_kwargs
            h.prove(kw['eval_cb_post'](J, None) is J, 'value passed on')
            h.prove_eq(m.J, J, 'cost stored')
            h.prove_eq(m.J_reg, reg[0] + reg[1], 'regularisation of this evaluation')
            h.prove_eq(m.J_misfit, mis[0] + mis[1] + mis[2], 'misfit of this evaluation')
            h.prove(sta.log[-1] == ('collect', m.i), 'series collected for this iteration')
            n = m.nb_grad_evals
            d, c = [f'd{it_}'], [f'c{it_}']
            h.prove(kw['derivative_cb_post'](None, d, c) is d, 'gradient passed on')
            h.prove_eq(m.J, J, 'cost kept with its gradient')
            h.prove(m.dJdm_list is d and m.m_list is c, 'gradient and control stored')
            h.prove(m.nb_grad_evals == n + 1, 'gradient evaluations counted')
            m.i += 1


def verify(h):
    sta = Sta(h)
    m = manager(h, sta)
    J, got = h.real('J', lo=1, hi=1000), h.real('got', lo=1, hi=1000)
    conv = h.real('rate', lo=0, hi=4)
    m.J = J
    m.Jhat = lambda c: got
    p = [(it, 'print_output', lambda *a, **k: None), (it, 'taylor_test', lambda *a: conv)]
    if h.symbolic:
        class N(NPX):
            @staticmethod
            def isclose(a, b):
                return abs(a - b) <= Fr(1, 10**8) + abs(b)*Fr(1, 10**5)
        p.append((it, 'numpy', N()))

    def raises(f):
        try:
            f()
        except ValueError:
            return True
        return False
    with patched(*p):
        r = raises(m.consistency_test)
        far, near = abs(J - got) > Fr(1, 1000)*got, abs(J - got) < Fr(1, 10**6)*got
        if far:
            h.prove(r, 'inconsistent functional reported')
        elif near:
            h.prove(not r, 'consistent functional accepted')
        h.prove(raises(m.taylor_test) == bool(conv < Fr(19, 10)), 'second order convergence required')


def series(h):
    """stored model series: one per iteration, the last evaluation of each"""
    with patched(*shims(h)):
        o = Obs(h, 3)
    files = {}

    class File:
        def __init__(self, fn, mode):
            self.d, self.attrs = {}, {}
            files[os.path.basename(fn)] = self

        def create_dataset(self, n, data=None):
            self.d[n] = data

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass
    seq = [0, 0, 1, 1, 1, 2]
    vals = []
    x = o.m.fs_points_0d_scalar.mesh().coordinates.dat.data_ro
    st = [[k for k in range(3) if np.allclose(PTS[k], x[i])][0] for i in range(3)]
    o.m.simulation_time = [0., 1.]
    tags = []
    for e, i in enumerate(seq):
        v = [[h.real(f'v{e}.{t}.{j}', lo=-10, hi=10) for j in range(3)] for t in range(2)]
        vals.append(v)
        blocks = [Block(types.SimpleNamespace(dat=types.SimpleNamespace(data=np.array([v[t][j] for j in st], dtype=object)))) for t in range(2)]
        tape = types.SimpleNamespace(get_blocks=lambda tag=None: tags.append(tag) or blocks)
        with patched((it, 'get_working_tape', lambda: tape)):
            o.m.collect_time_series(i)
    h.prove(set(tags) == {'elev observation'}, 'series of the observed variable')
    with patched((it, 'h5py', types.SimpleNamespace(File=File)), (it, 'create_directory', lambda *a: None)):
        o.m.dump_time_series()
    last = {i: e for e, i in enumerate(seq)}
    for j in range(3):
        f = files[f'diagnostic_timeseries_progress_st{j}_elev.hdf5']
        h.prove(f.attrs['location_name'] == f'st{j}' and (f.attrs['x'], f.attrs['y']) == PTS[j], 'name and position of the station')
        d = f.d['elev']
        h.prove(d.shape == (3, 2), 'iterations by times')
        if d.shape != (3, 2):
            continue
        for i in range(3):
            for t in range(2):
                h.prove_eq(d[i, t], vals[last[i]][t][j], 'model value at this station in this iteration')
        h.prove(list(f.d['time']) == [0., 1.], 'times of the series')


def progress(h):
    """controls and gradients of every group reach their own files"""
    sym = h.symbolic
    V = fd.FunctionSpace(MESH, 'CG', 1, variant='equispaced')
    R = fd.FunctionSpace(MESH, 'R', 0)
    F = S0 if sym else fd.Function
    n = V.dof_count

    def field(name, V=V):
        f = F(V, name=name)
        for i in range(2 if V is not R else 1):
            f.dat.data[i] = h.real(f'{name}.{i}', lo=-10, hi=10)
        return f
    out = {}

    class VTK:
        def __init__(self, fn, *a, **k):
            self.fn = os.path.basename(fn)

        def write(self, f):
            out.setdefault(self.fn, []).append(f.dat.data.copy() if sym else f.dat.data_ro.copy())

    class H5:
        def __init__(self, V, d, prefix):
            self.p = prefix

        def export(self, f):
            out.setdefault(self.p, []).append(f.dat.data.copy() if sym else f.dat.data_ro.copy())

    class FDV(FD if sym else object):
        VTKFile = VTK

        def __getattr__(self, k):
            return getattr(fd, k)

        @staticmethod
        def norm(f):
            return 1.0
    saved = {}

    class NS(NPX if sym else object):
        def __getattr__(self, k):
            return getattr(np, k)

        @staticmethod
        def save(fn, v):
            saved[os.path.basename(fn)] = list(v)
    with patched((it, 'fd', FDV()), (it, 'numpy', NS()), (it, 'HDF5Exporter', H5), (it, 'create_directory', lambda *a: None),
                 (it, 'print_output', lambda *a, **k: None), (it, 'print_function_value_range', lambda *a, **k: None),
                 (it, 'Control', lambda c: c)):
        m = it.InversionManager(Sta(h), output_dir='/nonexistent')
        a = field('a')
        g = [field('g0', R), field('g1', R)]
        masks = [field('m0'), field('m1')]
        b = field('b')
        order = h.choice('order', [0, 1])
        if order == 0:
            m.add_control(a)
            m.add_control(g, mappings=masks)
            m.add_control(b)
            groups = [('f', [a]), ('m', g), ('f', [b])]
        else:
            m.add_control(g, mappings=masks)
            m.add_control([a, b])
            groups = [('m', g), ('f', [a]), ('f', [b])]
        flat = [c for _, q in groups for c in q]
        h.prove(len(m.control_coeff_list) == 4 and all(x is y for x, y in zip(m.control_coeff_list, flat)), 'controls in the order added')
        h.prove(all(x is y for x, y in zip(m.control_list, flat)), 'wrapped in the same order')
        hist = []
        for k in range(2):
            new = [field(f'new{k}.{i}', c.function_space()) for i, c in enumerate(flat)]
            grad = [field(f'grad{k}.{i}', c.function_space()) for i, c in enumerate(flat)]
            J, Jr, Jm = (h.real(f'{q}{k}', lo=0, hi=100) for q in ('J', 'Jr', 'Jm'))
            hist.append((J, Jr, Jm))
            m.J_reg, m.J_misfit = Jr, Jm
            m.set_control_state(J, grad, new)
            m.nb_grad_evals = 5
            try:
                m.update_progress()
            except (IndexError, AssertionError):
                h.prove(False, 'every group exported')
                return
            h.prove(m.i == k + 1 and m.nb_grad_evals == 0, 'iteration counted')
            for lst, what in ((new, 'control'), (grad, 'gradient')):
                pos = 0
                for gi, (kd, q) in enumerate(groups):
                    part = lst[pos:pos + len(q)]
                    pos += len(q)
                    for key in ([f'control_progress_{gi:02d}.pvd', f'control_{gi:02d}'] if what == 'control'
                                else [f'gradient_progress_{gi:02d}.pvd']):
                        h.prove(len(out.get(key, [])) == k + 1, f'one {what} export per iteration')
                        if len(out.get(key, [])) != k + 1:
                            continue
                        got = out[key][k]
                        h.prove(len(got) == len(part[0].dat.data) or kd == 'm', f'{what} of the right space')
                        if len(got) < 2:
                            continue
                        for i in range(2):
                            if kd == 'f':
                                w = part[0].dat.data[i]
                            else:
                                w = part[0].dat.data[0]*masks[0].dat.data[i] + part[1].dat.data[0]*masks[1].dat.data[i]
                            h.prove_eq(got[i], w, f'{what} of this group', scale=100)
        for nme, c in (('J_progress', 0), ('J_reg_progress', 1), ('J_misfit_progress', 2)):
            h.prove(len(saved[nme]) == 2, f'{nme}: one entry per iteration')
            for k in range(2):
                h.prove_eq(saved[nme][k], hist[k][c], nme)


for n, s, w, k in ((1, True, False, 2), (2, True, False, 2), (2, True, True, 1), (1, False, False, 1), (1, False, True, 1)) + (
        ((3, True, True, 1), (2, False, False, 1)) if ck.thorough else ()):
    ck.harness(f'misfit[{n}-{"scalar" if s else "vector"}{"-window" if w else ""}]', misfit(n, s, w, k), max_paths=4000)
ck.harness('outside', outside, max_paths=400)
ck.harness('multi', multi, max_paths=400)
for r in (None, 'Hessian', 'Gradient'):
    ck.harness(f'cost[{r}]', cost(r, False))
ck.harness('cost[real]', cost('Hessian', True))
for s in (True, False):
    ck.harness(f'weighting[{"scalar" if s else "vector"}]', weighting(s, 1))
ck.harness('weighting[both]', weighting(True, 2))
ck.harness('windows', windows_of_stations, max_paths=400)
for k in ('gradient', 'hessian'):
    for l in (True, False):
        ck.harness(f'{k}[{"local" if l else "smallest"}]', regular(k, l))
ck.harness('prior', rspace)
ck.harness('penalties', reg_manager)
ck.harness('callbacks', callbacks)
ck.harness('verify', verify)
ck.harness('series', series)
ck.harness('progress', progress)
ck.finish()
