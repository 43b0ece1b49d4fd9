"""C12: the moving mesh follows the free surface"""
from column_mesh import *
import thetis.coupled_timeintegrator as ct
import thetis.timeintegrator as ti

ck = Check('C12', 'moving mesh')
TECHNIQUE = 'symbolic execution of the real mesh updater (its C kernels included) and of the real coupled integrators around it, for' \
            ' arbitrary depth, elevation, layer positions and elevation histories; z3 decides the geometric statements'
ck.encoded('utility3d.ALEMeshUpdater (initialize, update_mesh_coordinates, compute_mesh_velocity_begin/finalize, both kernels)',
           'utility.compute_elem_height (kernel)', 'utility3d.SubFunctionExtractor (kernel)',
           'coupled_timeintegrator.CoupledTwoStageRK.advance/store_elevation/compute_mesh_velocity',
           'coupled_timeintegrator.CoupledLeapFrogAM3.advance', 'coupled_timeintegrator.CoupledTimeIntegratorBase._update_moving_mesh')
ck.bound('one or two cells, 1 to 3 layers; arbitrary depths, elevations (water depth positive) and layer positions; two time steps of the'
         ' coupled integrators with arbitrary 2D updates')
ck.assumed('piecewise linear elevation: its projection to the continuous space is itself')


def proj(h):
    class P:
        def __init__(self, src, dst, *a, **k):
            self.src, self.dst = src, dst

        def project(self):
            self.dst.assign(self.src)
    return P


class World:
    def __init__(self, h, nl, ale=True, dg=False, same=False):
        self.dg = dg
        self.h, self.nl = h, (2 if nl == 'two' else nl)
        self.m2, self.m3 = meshes(nl)
        self.V2 = get_functionspace(self.m2, 'DG' if dg else 'CG', 1)
        self.V3 = get_functionspace(self.m3, 'DG' if dg else 'CG', 1, 'CG', 1)
        self.D2 = get_functionspace(self.m2, 'DG', 1)
        self.D3 = get_functionspace(self.m3, 'DG', 1, 'DG', 1)
        self.XV = self.m3.coordinates.function_space()
        self.F = NF if h.symbolic else fd.Function
        f = self.f = types.SimpleNamespace()
        for n, V in dict(elev_2d=self.V2, elev_cg_2d=self.V2, bathymetry_2d=self.V2, z_coord_3d=self.V3, z_coord_ref_3d=self.V3,
                         w_mesh_3d=self.V3, v_elem_size_3d=self.D3, v_elem_size_2d=self.D2).items():
            setattr(f, n, self.F(V, name=n))
        f.get = lambda k: getattr(f, k, None)
        self.lay = layout(self.V2, self.V3, self.m3, self.nl)
        self.layD = layout(self.D2, self.D3, self.m3, self.nl)
        self.layX = layout(self.V2, self.XV, self.m3, self.nl)
        nc = self.nc = self.lay['ncol']
        self.b = [h.real(f'bath{c}', lo=Fr(1, 100), hi=5000) for c in range(nc)]
        if same:
            self.b = [self.b[0]]*nc
        self.s = []     # sigma levels in each column
        for c in range(nc):
            s = [Fr(-1)] + [h.real(f'sig{c}.{k}', gt=-1, lt=0) for k in range(1, self.nl)] + [Fr(0)]
            for k in range(self.nl):
                h.assume(s[k+1] - s[k] > Fr(1, 1000))
            self.s.append(s)
        self.put2(f.bathymetry_2d, self.b)
        self.zref = [[self.s[c][k]*self.b[c] for k in range(self.nl + 1)] for c in range(nc)]
        self.cleared = 0
        self.solver = types.SimpleNamespace(fields=f, options=types.SimpleNamespace(use_ale_moving_mesh=ale),
                                            function_spaces=types.SimpleNamespace(P1_2d=self.V2), dt=1.0)
        def clear():
            self.cleared += 1
            if not h.symbolic:
                self.m3.clear_rtree()
        if h.symbolic:
            self.X = NF(self.XV)
            self.solver.mesh = types.SimpleNamespace(coordinates=self.X, clear_rtree=clear)
        else:
            self.X = self.m3.coordinates
            for ci, k, col, up, nd in self.layX['cells']:
                self.X.dat.data[nd] = self.m3._orig[nd]
                self.X.dat.data[nd, 2] = float(self.zref[col][k+up])
            self.solver.mesh = types.SimpleNamespace(coordinates=self.X, clear_rtree=clear)

    def put2(self, f, vals):
        lay = self.lay if f.function_space().ufl_element() == self.V2.ufl_element() else self.layD
        for i, c in enumerate(lay['cols2']):
            f.dat.data[i] = vals[c] if self.h.symbolic else float(vals[c])

    def put3(self, f, vals):
        for ci, k, col, up, nd in self.lay['cells']:
            f.dat.data[nd] = vals[col][k+up] if self.h.symbolic else float(vals[col][k+up])

    def get3(self, f, comp=None):
        """values per node of every cell: (column, level, value)"""
        lay = self.layX if comp is not None else self.lay
        d = f.dat.data if self.h.symbolic else f.dat.data_ro.copy()
        return [(col, k + up, d[nd] if comp is None else d[nd, comp]) for ci, k, col, up, nd in lay['cells']]

    def patches(self):
        if not self.h.symbolic:
            return ()

        def zcoord(f, *a, **k):
            self.put3(f, self.zref)
            return f
        op = ckn.Op2()
        return ((u3, 'op2', op), (ut, 'op2', op), (u3, 'Projector', proj(self.h)), (u3, 'Function', NF), (ct, 'Function', NF),
                (u3, 'get_zcoord_from_mesh', zcoord))

    def updater(self):
        up = u3.ALEMeshUpdater(self.solver)
        up.initialize()
        return up

    def elev(self, name):
        e = [self.h.real(f'{name}{c}', lo=-6000, hi=100) for c in range(self.nc)]
        for c in range(self.nc):
            self.h.assume(self.b[c] + e[c] > Fr(1, 100))
        return e

    def z(self, e, col, lev):
        """the reference column stretched onto the water column"""
        return self.zref[col][lev] + e[col]*(self.s[col][lev] + 1)


def geometry(nl, dg=False):
    def run(h):
        w = World(h, nl, dg=dg)
        with patched(*w.patches()):
            up = w.updater()
            for stage in ('rest', 'first', 'second'):
                if stage == 'rest':
                    e = [Fr(0)]*w.nc
                else:
                    e = w.elev(f'eta_{stage}')
                    w.put2(w.f.elev_2d, e)
                    up.update_mesh_coordinates()
                check_geometry(h, w, e, stage)
            h.prove(w.cleared >= 2, 'point look-up renewed with every move')
    return run


def check_geometry(h, w, e, stage):
    seen = {}
    D = [w.b[c] + e[c] for c in range(w.nc)]
    for col, lev, v in w.get3(w.f.z_coord_3d):
        seen[col, lev] = v
        h.prove_eq(v, w.z(e, col, lev), f'{stage}: stretched column at {col},{lev}', scale=100)
    for c in range(w.nc):
        h.prove_eq(seen[c, 0], -w.b[c], f'{stage}: bottom at the bed', scale=100)
        h.prove_eq(seen[c, w.nl], e[c], f'{stage}: top at the free surface', scale=100)
        for k in range(w.nl):
            h.prove(seen[c, k+1] > seen[c, k], f'{stage}: order kept')
            h.prove_eq((seen[c, k+1] - seen[c, k])*w.b[c], D[c]*(w.zref[c][k+1] - w.zref[c][k]), f'{stage}: layers keep their share',
                       scale=1e4)
    if (stage != 'rest' or not h.symbolic) and not w.dg:
        for col, lev, v in w.get3(w.X, 2):
            h.prove_eq(v, seen[col, lev], f'{stage}: mesh coordinates', scale=100)
    d = w.f.v_elem_size_3d.dat.data if h.symbolic else w.f.v_elem_size_3d.dat.data_ro
    for ci, k, col, up, nd in w.layD['cells']:
        h.prove_eq(d[nd], seen[col, k+1] - seen[col, k], f'{stage}: layer thickness', scale=100)
    d = w.f.v_elem_size_2d.dat.data if h.symbolic else w.f.v_elem_size_2d.dat.data_ro
    for i, col in enumerate(w.layD['cols2']):
        h.prove_eq(d[i], seen[col, w.nl] - seen[col, w.nl-1], f'{stage}: thickness of the surface layer', scale=100)


def other_coordinates(h):
    """horizontal coordinates never change"""
    w = World(h, 2)
    with patched(*w.patches()):
        up = w.updater()
        if h.symbolic:
            for ci, k, col, u, nd in w.layX['cells']:
                w.X.dat.data[nd, 0] = h.real(f'x{col}')
                w.X.dat.data[nd, 1] = h.real(f'y{col}')
        before = w.X.dat.data.copy() if h.symbolic else w.X.dat.data_ro.copy()
        w.put2(w.f.elev_2d, w.elev('eta'))
        up.update_mesh_coordinates()
        after = w.X.dat.data if h.symbolic else w.X.dat.data_ro
        for i in range(len(before)):
            for j in range(2):
                h.prove_eq(after[i, j], before[i, j], 'horizontal coordinate')


def velocity(nl, c=None, dg=False):
    def run(h):
        w = World(h, nl, dg=dg)
        dt = w.solver.dt = h.real('dt', lo=Fr(1, 100), hi=10000)
        with patched(*w.patches()):
            up = w.updater()
            e0, e1 = w.elev('eta0'), w.elev('eta1')
            kw = {}
            if c:
                kw['c'] = h.real('c', lo=Fr(1, 10), hi=2)
            w.put2(w.f.elev_2d, e0)
            up.update_mesh_coordinates()
            z0 = {(a, b): v for a, b, v in w.get3(w.f.z_coord_3d)}
            up.compute_mesh_velocity_begin()
            w.put2(w.f.elev_2d, e1)
            up.compute_mesh_velocity_finalize(**kw)
            wm = w.get3(w.f.w_mesh_3d)
            up.update_mesh_coordinates()
            z1 = {(a, b): v for a, b, v in w.get3(w.f.z_coord_3d)}
            for a, b, v in wm:
                h.prove_eq(v*dt*(kw['c'] if c else 1), z1[a, b] - z0[a, b], f'mesh velocity is the rate of change of the nodes ({a},{b})',
                           scale=100)
                if b == 0:
                    h.prove_eq(v, 0, 'the bottom does not move')
    return run


def user_velocity(h):
    w = World(h, 2)
    with patched(*w.patches()):
        up = w.updater()
        v = [h.real(f'ws{c}', lo=-10, hi=10) for c in range(w.nc)]
        f = w.F(w.V2)
        w.put2(f, v)
        up.compute_mesh_velocity_finalize(w_mesh_surf_expr=f)
        for a, b, got in w.get3(w.f.w_mesh_3d):
            h.prove_eq(got*w.b[a], v[a]*(w.zref[a][b] + w.b[a]), 'linear from bed to surface', scale=100)


# -- inside the coupled integrators ----------------------------------------------------------------------------------------------------
class Coupled:
    """a real coupled integrator; 2D and 3D equations are recorders"""
    def __init__(self, h, cls, ale=True):
        w = self.w = World(h, 1, ale=ale)
        self.h = h
        self.dt = w.solver.dt = h.real('dt', lo=Fr(1, 100), hi=10000)
        self.up = w.updater()
        w.solver.mesh_updater = self.up
        self.log = []
        self.count = 0
        nil = types.SimpleNamespace(solve=lambda: None)
        V = Val
        f = w.f
        f.elev_domain_2d = w.F(w.V2)
        f.uv_2d, f.uv_3d, f.uv_dav_3d = FV(), FV(), FV()
        f.uv_dav_2d, f.split_residual_2d = FV(), FV()
        s = w.solver
        for n in ('uv_averager', 'extract_surf_dav_uv', 'copy_uv_dav_to_uv_dav_3d', 'copy_uv_to_uv_dav_3d', 'w_solver'):
            setattr(s, n, types.SimpleNamespace(solve=(lambda n=n: self.log.append((n, self.snap())))))
        o = s.options
        o.solve_salinity = True
        o.solve_temperature = o.use_baroclinic_formulation = o.use_turbulence = False
        o.use_limiter_for_tracers = o.use_limiter_for_velocity = o.use_smagorinsky_viscosity = False
        o.use_implicit_vertical_diffusion = False
        T = object.__new__(cls)
        T.solver, T.options, T.fields = s, o, f
        T._initialized, T.n_stages = True, 2
        e = self

        class R3:
            dt_const = 1
            gamma = Fr(1, 12)

            def __init__(q, n):
                q.n = n

            def __getattr__(q, m):
                if m.startswith('_'):
                    raise AttributeError(m)
                return lambda *a: e.log.append((f'{q.n}.{m}', e.snap()) + a)

        class R2:
            def solve_stage(q, i, t, up=None):
                e.new2d(i)

            def advance(q, t, up=None):
                e.new2d(0)
        T.timesteppers = types.SimpleNamespace(swe2d=R2(), mom_expl=R3('mom'), salt_expl=R3('salt'))
        T.timesteppers = TS(swe2d=R2(), mom_expl=R3('mom'), salt_expl=R3('salt'))
        if cls is ct.CoupledTwoStageRK:
            T.elev_fields = [w.F(w.V2), w.F(w.V2)]
        else:
            T.elev_domain_old_2d = w.F(w.V2)
            T.uv_old_2d, T.uv_new_2d = FV(), FV()
        self.T = T

    def snap(self):
        w = self.w
        return ({(a, b): v for a, b, v in w.get3(w.f.z_coord_3d)}, {(a, b): v for a, b, v in w.get3(w.f.w_mesh_3d)},
                {(a, b): v for a, b, v in w.get3(w.X, 2)})

    def start(self):
        e = self.w.elev('init')
        self.w.put2(self.w.f.elev_2d, e)
        self.hist = [e]
        if self.w.solver.options.use_ale_moving_mesh:
            self.T._update_moving_mesh()

    def new2d(self, i):
        e = self.w.elev(f'new{self.count}_')
        self.count += 1
        self.w.put2(self.w.f.elev_2d, e)
        self.hist.append(e)


class TS(dict):
    __getattr__ = dict.__getitem__


class FV:
    def assign(self, *a):
        return self

    def __iadd__(self, o):
        return self
    __isub__ = __imul__ = __itruediv__ = __iadd__

    def __rmul__(self, o):
        return self


def mesh_is(h, w, z, e, what):
    for (c, k), v in z.items():
        h.prove_eq(v, w.z(e, c, k), what, scale=100)


def two_stage(h):
    w0 = World(h, 1)
    with patched(*w0.patches()):
        C = Coupled(h, ct.CoupledTwoStageRK)
        w = C.w
        C.T.elev_fields = [w.F(w.V2), w.F(w.V2)]
        with patched(*w.patches()):
            C.start()
            for step in range(2):
                e0 = C.hist[-1]
                C.log.clear()
                C.T.advance(Fr(step))
                e1, e2 = C.hist[-2:]
                assert len(C.hist) == 1 + 2*(step + 1)
                for eq in ('mom', 'salt'):
                    L = [q for q in C.log if q[0].startswith(eq + '.')]
                    h.prove([q[0] for q in L] == [f'{eq}.prepare_stage', f'{eq}.solve_stage']*2, f'{eq}: two stages')
                    h.prove([q[2] for q in L] == [0, 0, 1, 1], f'{eq}: stage numbers')
                    for q, e in zip(L, (e0, e1, e1, e2)):
                        mesh_is(h, w, q[1][2], e, f'{q[0]} on the mesh of its stage')
                    for (c, k), v in L[0][1][1].items():
                        d1, d0 = w.z(e1, c, k), w.z(e0, c, k)
                        h.prove_eq(v*C.dt, d1 - d0, 'first stage: velocity that moves the mesh to the first stage', scale=100)
                    for (c, k), v in L[2][1][1].items():
                        # the second stage averages old and intermediate state: z2 = (z0 + z1)/2 + dt/2 w
                        h.prove_eq(v*C.dt/2, w.z(e2, c, k) - (w.z(e0, c, k) + w.z(e1, c, k))/2, 'second stage: velocity consistent with'
                                   ' the averaged update', scale=100)
                W = [q for q in C.log if q[0] == 'w_solver']
                h.prove(len(W) == 2, 'vertical velocity after each stage')
                for q, e in zip(W, (e1, e2)):
                    mesh_is(h, w, q[1][2], e, 'vertical velocity on the new mesh')


def leapfrog(h):
    w0 = World(h, 1)
    with patched(*w0.patches()):
        C = Coupled(h, ct.CoupledLeapFrogAM3)
        w = C.w
        with patched(*w.patches()):
            C.start()
            for step in range(2):
                e0 = C.hist[-1]
                C.log.clear()
                C.T.advance(Fr(step))
                e1 = C.hist[-1]
                assert len(C.hist) == 2 + step
                for eq in ('mom', 'salt'):
                    L = {q[0]: q for q in C.log if q[0].startswith(eq + '.')}
                    h.prove(list(L) == [f'{eq}.{m}' for m in ('predict', 'eval_rhs', 'correct')], f'{eq}: predict, evaluate, correct')
                    z, wm, X = L[f'{eq}.predict'][1]
                    mesh_is(h, w, X, e0, 'prediction on the old mesh')
                    for v in wm.values():
                        h.prove_eq(v, 0, 'prediction on a fixed mesh')
                    z, wm, X = L[f'{eq}.eval_rhs'][1]
                    mesh_is(h, w, X, e0, 'right-hand side on the old mesh')
                    for (c, k), v in wm.items():
                        h.prove_eq(v*C.dt, w.z(e1, c, k) - w.z(e0, c, k), 'velocity that moves the mesh over the step', scale=100)
                    mesh_is(h, w, L[f'{eq}.correct'][1][2], e1, 'correction on the new mesh')


def fixed(cls):
    """without the moving mesh nothing moves"""
    def run(h):
        w0 = World(h, 1)
        with patched(*w0.patches()):
            C = Coupled(h, cls, ale=True)
            w = C.w
            C.T.options.use_ale_moving_mesh = False
            with patched(*w.patches()):
                C.start()
                C.T.advance(Fr(0))
                for q in C.log:
                    for (c, k), v in q[1][0].items():
                        h.prove_eq(v, w.zref[c][k], 'node at rest')
    return run


for nl in (1, 2, 3, 'two'):
    ck.harness(f'geometry[{nl}]', geometry(nl), validate=nl in (2, 'two') or ck.thorough)
    ck.harness(f'velocity[{nl}]', velocity(nl), validate=nl in (2, 'two') or ck.thorough)
    ck.harness(f'velocity[{nl},c]', velocity(nl, True), validate=ck.thorough)
ck.harness('geometry[2,dg]', geometry(2, True), validate=True)
ck.harness('velocity[2,dg]', velocity(2, dg=True), validate=ck.thorough)
ck.harness('horizontal', other_coordinates)
ck.harness('given-velocity', user_velocity)
ck.harness('two-stage', two_stage)
ck.harness('leapfrog', leapfrog)
for cls in (ct.CoupledTwoStageRK, ct.CoupledLeapFrogAM3):
    ck.harness(f'fixed[{cls.__name__}]', fixed(cls))
ck.finish()
