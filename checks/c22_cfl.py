"""C22: automatic time steps stay within the CFL limits"""
from stand import *
from types import SimpleNamespace
from fractions import Fraction as Fr
import firedrake as fd
import numpy as np
import ufl
import thetis.solver2d as s2
import thetis.solver as s3
from thetis.options import ModelOptions2d, ModelOptions3d
from symx.symfd import SymFD

ck = Check('C22', 'CFL time step')
TECHNIQUE = 'symbolic execution of the real time step selection on symbolic nodal CFL fields, scales, coefficients, export' \
            ' interval and values of another MPI rank; the projection form is evaluated symbolically; z3 decides the bounds'
ck.encoded('solver2d.FlowSolver2d.compute_time_step/set_time_step', 'solver.FlowSolver.compute_dt_2d/compute_dt_h_advection/'
           'compute_dt_v_advection/compute_dt_diffusion/compute_dx_factor/compute_dz_factor/set_time_step')
ck.bound('3 nodal values per rank, 2 ranks; 2D/3D and export/step ratios up to 3 (5 thorough); polynomial degree 0-3')
ck.assumed('the nodal values of the projected CFL field are those of its pointwise expression plus arbitrary other nodes')
LIM = 5 if ck.thorough else 3


class SFloat(float):
    def __new__(cls, x=0.0):
        return x if is_sym(x) else float(x)


def sint(h):
    def f(x=0):
        if not is_sym(x):
            return int(x)
        x = x.trunc()
        for k in range(0, LIM + 1):
            if x == k:
                return k
        h.assume(False)
    return f


class Comm:
    """two ranks: the other one holds the given values"""
    rank, size = 0, 2

    def __init__(self, h, gt=0):
        self.h, self.n, self.other, self.gt = h, 0, [], gt

    def allreduce(self, x, op=None):
        o = self.h.real(f'rank1_{self.n}', gt=0, hi=1e6)
        self.n += 1
        self.other.append(o)
        from mpi4py import MPI
        if op == MPI.MIN:
            return o if o < x else x
        if op == MPI.MAX:
            return x if o < x else o
        return x + o


def data(v):
    return SimpleNamespace(dat=SimpleNamespace(data=np.array(v, dtype=object), data_ro=np.array(v, dtype=object)))


def quiet(mod):
    return (mod, 'print_output', lambda *a, **k: None)


def set_dt_2d(which):
    def run(h):
        cfl, alpha = h.real('cfl', gt=0, hi=10), h.real('alpha', gt=0, hi=10)
        nodes = [h.real(f'limit{i}', gt=0, hi=1e6) for i in range(3)]
        us = h.real('u_scale', lo=0, hi=100)
        dt0 = h.real('user_dt', gt=0, hi=1e6)
        s = object.__new__(s2.FlowSolver2d)
        N = lambda b: SimpleNamespace(use_automatic_timestep=b)
        comm = Comm(h)
        seen = []
        o = SimpleNamespace(
            swe_timestepper_options=N(which == 'swe'), tracer_timestepper_options=N(which == 'tracer'),
            sediment_model_options=SimpleNamespace(sediment_timestepper_options=N(which == 'sediment'),
                                                   exner_timestepper_options=N(which == 'exner')),
            nh_model_options=SimpleNamespace(free_surface_timestepper_options=N(which == 'nh') if which != 'plain'
                                             else SimpleNamespace()),
            horizontal_velocity_scale=us, cfl_2d=cfl, timestep=dt0)
        s.__dict__.update(options=o, comm=comm)
        s.__dict__['compute_time_step'] = lambda u_scale=0: (seen.append(u_scale), data(nodes))[1]
        with patched(quiet(s2), (s2, 'float', SFloat)):
            if h.bool('give_alpha'):
                s.set_time_step(alpha=alpha)
                a = alpha
            else:
                s.set_time_step()
                a = None
        if which in ('none', 'plain'):
            h.prove_eq(s.dt, dt0, 'the user time step is used')
            return
        h.prove(len(seen) >= 1, 'the CFL limit is computed')
        if not seen:
            return
        h.prove_eq(seen[-1], us, 'with the configured velocity scale')
        h.prove_lt(0, s.dt, 'positive')
        a = a if a is not None else Fr(1, 20) if h.symbolic else 0.05
        tol = Fr(1, 10**9)
        for i, n in enumerate(nodes):
            h.prove_le(s.dt, cfl*a*n*(1 + tol), f'within the limit of node {i}')
        for i, n in enumerate(comm.other):
            h.prove_le(s.dt, n, f'within the value of the other rank')
        h.prove(len(comm.other) > 0, 'ranks agree on the time step')
        ok = False
        for n in nodes:
            ok = ok | (s.dt == cfl*a*n) if h.symbolic else ok or abs(s.dt - cfl*a*n) <= 1e-9*abs(s.dt)
        for n in comm.other:
            ok = ok | (s.dt == n) if h.symbolic else ok or s.dt == n
        if a is alpha:
            h.prove(ok, 'and not smaller than the tightest of them')
    return run


def user_dt(h):
    """without automatic time stepping a time step must be given and positive"""
    dt0 = h.real('user_dt', lo=-10, hi=10)
    none = h.bool('none')
    s = object.__new__(s2.FlowSolver2d)
    N = SimpleNamespace(use_automatic_timestep=False)
    o = SimpleNamespace(swe_timestepper_options=N, tracer_timestepper_options=N,
                        sediment_model_options=SimpleNamespace(sediment_timestepper_options=N, exner_timestepper_options=N),
                        nh_model_options=SimpleNamespace(free_surface_timestepper_options=N), horizontal_velocity_scale=1.0,
                        cfl_2d=1.0, timestep=None if none else dt0)
    s.__dict__.update(options=o, comm=Comm(h))
    ok = (not none) and bool(dt0 > 0)
    with patched(quiet(s2)):
        try:
            s.set_time_step()
            r = True
        except (AssertionError, TypeError):
            r = False
    h.prove(r == ok, 'refused unless a positive time step is given')


_mesh = {}


def fields():
    if not _mesh:
        m = fd.UnitSquareMesh(1, 1)
        V = fd.FunctionSpace(m, 'CG', 1)
        _mesh.update(m=m, b=fd.Function(V, name='bath'), c=fd.Function(V, name='csize'), R=fd.FunctionSpace(m, 'R', 0),
                     us=fd.Constant(0.0))
    return SimpleNamespace(**_mesh)


class View(np.ndarray):
    """nodal values of a uniform symbolic field; writes go to the field"""
    def __setitem__(self, k, v):
        np.ndarray.__setitem__(self, k, v)
        if getattr(self, 'owner', None) is not None:
            self.owner.write(self)


class Dat:
    def __init__(self, S, f):
        self.S, self.f = S, f

    @property
    def data(self):
        a = np.array(self.S.get(self.f), dtype=object).view(View)
        a.owner = self
        return a
    data_ro = data_with_halos = data_ro_with_halos = data

    def write(self, a):
        self.S.store[id(self.f)] = [q if is_sym(q) else frac(float(q)) for q in np.asarray(a)]


def cfl_field(dim):
    """the value of the CFL field is csize/(sqrt(g max(depth, 0.05)) + U)"""
    def run(h):
        W = fields()
        mod = s2 if dim == 2 else s3
        out = {}
        with SymFD(h) as S:
            b = S.symbolic(W.b, 'depth', lo=-10, hi=1e4)
            c = S.symbolic(W.c, 'csize', gt=0, hi=1e6)
            u = S.symbolic(W.us, 'u_scale', lo=0, hi=100)
            s = object.__new__(s2.FlowSolver2d if dim == 2 else s3.FlowSolver)
            comm = Comm(h)
            s.__dict__.update(fields=SimpleNamespace(h_elem_size_2d=W.c, bathymetry_2d=W.b), comm=comm,
                              options=SimpleNamespace(polynomial_degree=1, element_family='dg-dg'))
            others = [h.real(f'node{i}', gt=0, hi=1e6) for i in range(2)] if dim == 3 else []
            pp = [quiet(mod)]
            if h.symbolic:
                class Fn(fd.Function):
                    @property
                    def subfunctions(self):
                        return (self,)

                    @property
                    def dat(self):
                        if getattr(self, '_sol', None) is not None:
                            return data([S.get(self)[0]] + others).dat
                        if not hasattr(self, '_vd'):
                            self._vd = Dat(S, self)
                        return self._vd

                def solve(eq, sol, *a, **k):
                    S.solve(ufl.action(eq.lhs, sol) - eq.rhs, sol)
                    sol._sol = True
                S._key = lambda f: id(f)
                S.parts = lambda f: [(id(f), S._size(f))]
                S.keep.append(Fn)
                S.store.clear()
                S.set(W.b, [b]), S.set(W.c, [c])
                pp += [(mod, 'Function', Fn), (mod, 'solve', solve), (mod, 'float', SFloat)]
            with patched(*pp):
                r = s.compute_time_step(u_scale=W.us) if dim == 2 else s.compute_dt_2d(W.us)
            if dim == 2:
                r = S.get(r)[0]
            gH = (frac(9.81) if h.symbolic else 9.81)*(b if b >= (frac(0.05) if h.symbolic else 0.05)
                                                       else (frac(0.05) if h.symbolic else 0.05))
            q = gH.sqrt() if is_sym(gH) else gH**0.5 if not h.symbolic else SymReal(rv(gH)).sqrt()
            want = c/(q + u)
            if dim == 2:
                h.prove_le(abs(r - want), want*Fr(1, 10**9), 'csize/(sqrt(g H) + U) with H at least 0.05 m')
                h.prove_eq(S.get(W.b)[0], b, 'bathymetry itself is left alone')
            else:
                fac = s.compute_dx_factor()
                for i, o in enumerate([want] + (others if h.symbolic else [])):
                    h.prove_le(r, o*frac(fac)*(1 + Fr(1, 10**9)) if h.symbolic else o*fac, f'within the limit of node {i}',
                               tol=0 if h.symbolic else 1e-6)
                for o in comm.other:
                    h.prove_le(r, o*frac(fac)*(1 + Fr(1, 10**9)) if h.symbolic else o*fac, 'within the limit of the other rank')
                h.prove_eq(S.get(W.b)[0], b, 'bathymetry itself is left alone')
                h.prove(len(comm.other) > 0, 'ranks agree')
                h.prove_lt(0, r, 'positive')
    return run


def factor(fam, p):
    """normalised node distance of the element"""
    def run(h):
        s = object.__new__(s3.FlowSolver)
        s.__dict__['options'] = SimpleNamespace(polynomial_degree=p, element_family=fam)
        q = p + 1 if fam in ('rt-dg', 'bdm-dg') else p
        h.prove_eq(s.compute_dx_factor(), 0.125/(q*q/3.0 + 7.0/6.0*q + 1.0), 'horizontal')
        h.prove_eq(s.compute_dz_factor(), 0.125*max(p, 1), 'vertical')
    return run


def dt3(kind):
    def run(h):
        s = object.__new__(s3.FlowSolver)
        comm = Comm(h)
        nodes = [h.real(f'size{i}', gt=0, hi=1e6) for i in range(3)]
        sc = h.real('scale', gt=0, hi=1e3)
        fam = h.choice('family', ['dg-dg', 'rt-dg', 'bdm-dg'])
        ts = h.choice('ts', ['SSPRK22', 'LeapFrog']) if kind == 'diffusion' else 'SSPRK22'
        fac = h.real('node_distance', gt=0, hi=1)
        s.__dict__.update(comm=comm, fields=SimpleNamespace(h_elem_size_2d=data(nodes), v_elem_size_2d=data(nodes)),
                          options=SimpleNamespace(polynomial_degree=1, element_family=fam, timestepper_type=ts))
        s.__dict__['compute_dx_factor'] = (lambda: fac) if kind != 'v_advection' else (lambda: 1e6)
        s.__dict__['compute_dz_factor'] = (lambda: fac) if kind == 'v_advection' else (lambda: 1e6)
        asconst = h.bool('as_constant')
        with SymFD(h) as S:
            us = sc
            if asconst:
                us = fields().us
                S.set(us, [sc])
            if h.symbolic and asconst:
                pp = [(s3, 'float', lambda x=0.0: S.get(x)[0] if isinstance(x, fd.Constant) else SFloat(x))]
            else:
                pp = [(s3, 'float', SFloat)]
            with patched(quiet(s3), *pp):
                r = getattr(s, 'compute_dt_' + kind)(us)
        h.prove_lt(0, r, 'positive')
        for i, n in enumerate(nodes):
            if kind == 'diffusion':
                f = (Fr(9, 5) if fam == 'bdm-dg' else 2)*(Fr(3, 5) if ts == 'LeapFrog' else 1)
                lim = (f if h.symbolic else float(f))*fac*n
                h.prove_le(r*sc, lim*lim*(1 + Fr(1, 10**9)), f'diffusive limit of node {i}')
            else:
                h.prove_le(r*sc, n*fac*(1 + Fr(1, 10**9)), f'limit of node {i}')
        for o in comm.other:
            h.prove_le(r, o, 'limit of the other rank')
        h.prove(len(comm.other) > 0, 'ranks agree')
    return run


def set_dt_3d(mode, auto):
    def run(h):
        s = object.__new__(s3.FlowSolver)
        lim = {k: h.real(k, gt=0, hi=1e5) for k in ('swe', 'hadv', 'vadv', 'diff')}
        c2, c3 = h.real('cfl2', gt=0, hi=5), h.real('cfl3', gt=0, hi=5)
        ex = h.real('export', gt=0, hi=1e6)
        dt, dt2 = h.real('timestep', gt=0, hi=1e5), h.real('timestep_2d', gt=0, hi=1e5)
        sc = dict(horizontal_velocity_scale='U', vertical_velocity_scale='W', horizontal_viscosity_scale='nu')
        o = SimpleNamespace(timestepper_options=SimpleNamespace(use_automatic_timestep=auto) if auto or h.bool('has_flag')
                            else SimpleNamespace(), timestep=dt, timestep_2d=dt2, simulation_export_time=ex, **sc)
        args = []
        s.__dict__.update(options=o, dt_mode=mode, timestepper=SimpleNamespace(cfl_coeff_2d=c2, cfl_coeff_3d=c3))
        for k, n, a in (('swe', '2d', 'U'), ('hadv', 'h_advection', 'U'), ('vadv', 'v_advection', 'W'), ('diff', 'diffusion', 'nu')):
            s.__dict__['compute_dt_' + n] = lambda x, k=k, a=a: (args.append((k, x == a)), lim[k])[1]
        # the products are independent numbers for the solver (cfl > 0 arbitrary)
        pp = [quiet(s3)]
        if h.symbolic:
            pp += [(s3, 'int', sint(h)), (s3, 'float', SFloat)]
        else:
            h.assume(ex/min(dt, 1e9) < 1e9)
        with patched(*pp):
            s.set_time_step()
        h.prove(all(q for _, q in args), 'limits are computed from their own scales')
        rel = (1 + Fr(1, 10**9)) if h.symbolic else 1 + 1e-9
        h.prove_lt(0, s.dt, 'positive')
        n = ex/s.dt
        h.prove((n.ceil() == n) if is_sym(n) else abs(n - round(n)) < 1e-6, 'the export interval is a multiple of the step')
        h.prove(s.M_modesplit >= 1 and int(s.M_modesplit) == s.M_modesplit, 'integer ratio of at least one')
        h.prove_eq(s.dt_2d*s.M_modesplit, s.dt, 'the 3D step is that number of 2D steps')
        if not auto:
            h.prove_le(s.dt, dt*rel, 'not above the requested step')
            if mode == 'split':
                h.prove_le(s.dt_2d, dt2*rel, 'not above the requested 2D step')
            if h.symbolic:
                h.prove_eq(s.dt*(ex/dt).ceil(), ex, 'the largest such step')
            return
        for k in ('hadv', 'vadv', 'diff'):
            h.prove_le(s.dt, c3*lim[k]*rel, f'3D limit {k}')
        if mode in ('2d', 'split'):
            h.prove_le(s.dt_2d, c2*lim['swe']*rel, '2D limit')
        if mode == '2d':
            h.prove_le(s.dt, c2*lim['swe']*rel, '2D limit')
    return run


for w in ('swe', 'tracer', 'sediment', 'exner', 'nh', 'none', 'plain'):
    ck.harness(f'2d[{w}]', set_dt_2d(w))
ck.harness('2d[user]', user_dt)
for dim in (2, 3):
    ck.harness(f'field[{dim}d]', cfl_field(dim))
for fam in ('dg-dg', 'rt-dg', 'bdm-dg'):
    for p in range(4):
        ck.harness(f'factor[{fam}-{p}]', factor(fam, p))
for k in ('h_advection', 'v_advection', 'diffusion'):
    ck.harness(f'3d[{k}]', dt3(k))
for mode in ('split', '2d', '3d'):
    for auto in (True, False):
        ck.harness(f'3d[{mode}-{"auto" if auto else "user"}]', set_dt_3d(mode, auto), max_paths=3000)
ck.finish()
