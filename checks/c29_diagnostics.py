"""C29: conservation, extremum and sampling diagnostics report what they measure"""
from stand import *
from types import SimpleNamespace
import numpy as np
import firedrake as fd
from symx.point import Point
import thetis.callback as cb
import thetis.utility as ut

ck = Check('C29', 'diagnostics')
TECHNIQUE = 'symbolic execution of the real callbacks over sequences of symbolic values, positions and affine fields; the integrals they' \
            ' assemble are evaluated on symbolic point data; z3 compares with the documented measures'
ck.encoded('callback.ScalarConservationCallback', 'callback.VolumeConservation2DCallback/3DCallback', 'callback.TracerMassConservation*',
           'callback.ConservativeTracerMassConservation2DCallback', 'callback.MinMaxConservationCallback', 'callback.TracerOvershootCallBack',
           'callback.DetectorsCallback', 'callback.AccumulatorCallback', 'callback.TimeSeriesCallback2D/3D', 'callback.VerticalProfileCallback',
           'callback.TransectCallback', 'utility.comp_volume_2d/comp_volume_3d/comp_tracer_mass_2d/comp_tracer_mass_3d')
N = 6 if ck.thorough else 4
ck.bound(f'sequences of {N} evaluations; up to 3 detectors and 2 fields (scalar and vector); 3 points along a transect or profile; 2 MPI ranks'
         ' in reductions')
ck.assumed('evaluation of a finite element function at a point and the vertex only mesh are stand-ins: fields are arbitrary affine functions',
           'the initial value of a conserved quantity is not zero; an accumulator is evaluated at every time step')
one = lambda h: 0 if h.symbolic else 1e-9


def base(h, **kw):
    o = SimpleNamespace(output_directory='x', simulation_initial_date=None, timestep=h.real('dt_opt', lo=0.1, hi=100))
    return SimpleNamespace(options=o, comm=kw.pop('comm', SimpleNamespace(rank=0, barrier=lambda: None)), simulation_time=0.0, **kw)


OFF = dict(append_to_log=False, export_to_hdf5=False)


def scalar(h):
    v = [h.real(f'v{k}', lo=-100, hi=100) for k in range(N)]
    h.assume(v[0]*v[0] >= 0.01)
    it = iter(v)

    class C(cb.ScalarConservationCallback):
        name = 'mine'
    c = C(lambda: next(it), base(h), **OFF)
    for k in range(N):
        a, b = c()
        h.prove_eq(a, v[k], 'the quantity itself')
        h.prove_eq(b*v[0], v[k] - v[0], 'change relative to the first value', tol=one(h))


def minmax(h):
    lo = [h.real(f'l{k}', lo=-100, hi=100) for k in range(N - 1)]
    hi = [h.real(f'h{k}', lo=-100, hi=100) for k in range(N - 1)]
    for a, b in zip(lo, hi):
        h.assume(a <= b)
    it = iter(zip(lo, hi))

    class C(cb.MinMaxConservationCallback):
        name = 'mine'
    c = C(lambda: next(it), base(h), **OFF)
    for k in range(N - 1):
        a, b, u, o = c()
        h.prove_eq(a, lo[k], 'minimum')
        h.prove_eq(b, hi[k], 'maximum')
        if bool(lo[k] >= lo[0]):
            h.prove_eq(u, 0, 'no undershoot above the initial minimum')
        else:
            h.prove_eq(u, lo[k] - lo[0], 'undershoot relative to the initial minimum', tol=one(h))
        if bool(hi[k] <= hi[0]):
            h.prove_eq(o, 0, 'no overshoot below the initial maximum')
        else:
            h.prove_eq(o, hi[k] - hi[0], 'overshoot relative to the initial maximum', tol=one(h))


class Arr:
    def __init__(self, v):
        self.v = v

    def _m(self, f):
        r = self.v[0]
        for q in self.v[1:]:
            r = pick(f(q, r), q, r)
        return r

    def min(self):
        return self._m(lambda a, b: a < b)

    def max(self):
        return self._m(lambda a, b: a > b)


def pick(c, a, b):
    return SymReal(z3.If(raw_bool(c), raw(a), raw(b))) if is_sym(a) else (a if c else b)


def overshoot(h):
    """tracer extrema over all nodes of all ranks"""
    steps = 2
    V = [[[h.real(f'q{k}{r}{i}', lo=-10, hi=10) for i in range(2)] for r in range(2)] for k in range(steps)]
    cur = [0]

    def allreduce(x, op):
        other = Arr(V[cur[0]][1])
        if op == cb.MPI.MIN:
            y = other.min()
            return pick(y < x, y, x)
        if op == cb.MPI.MAX:
            y = other.max()
            return pick(y > x, y, x)
        h.prove(False, 'reduction')
    so = base(h, comm=SimpleNamespace(rank=0, allreduce=allreduce))
    so.fields = {'temp': SimpleNamespace(dat=None), 'other': SimpleNamespace(dat=None)}
    c = cb.TracerOvershootCallBack('temp', so, **OFF)
    h.prove(c.name == 'temp overshoot', 'name')
    L, H = [], []
    for k in range(steps):
        cur[0] = k
        so.fields['temp'].dat = SimpleNamespace(data=Arr(V[k][0]))
        a, b, u, o = c()
        al = V[k][0] + V[k][1]
        for q in al:
            h.prove_le(a, q, 'minimum over all ranks')
            h.prove_ge(b, q, 'maximum over all ranks')
        h.prove(any_eq(h, a, al), 'minimum is attained')
        h.prove(any_eq(h, b, al), 'maximum is attained')
        L.append(a)
        H.append(b)
        h.prove_eq(o, pick(b > H[0], b - H[0], b - b), 'overshoot', tol=one(h))
        h.prove_eq(u, pick(a < L[0], a - L[0], a - a), 'undershoot', tol=one(h))


def any_eq(h, a, al):
    if not h.symbolic:
        return a in al
    r = False
    for q in al:
        e = a == q
        r = e if r is False else (r | e)
    return r


class G:
    """one cell with fields"""
    m = fd.UnitTriangleMesh()
    D = fd.FunctionSpace(m, 'DG', 1)
    eta, bath, q, q2 = map(fd.Function, [D]*4)


def mass(h):
    """volume and mass callbacks integrate what they name"""
    p = Point(h, G.m, 'dx')
    with p:
        for f, n in ((G.eta, 'eta'), (G.bath, 'bath'), (G.q, 'q'), (G.q2, 'q2')):
            p.coeff(f, n)
        e, b, q, q2 = (p.value(f) for f in (G.eta, G.bath, G.q, G.q2))
        so = base(h)
        so.fields = type('F', (dict,), {'__getattr__': dict.__getitem__})(elev_2d=G.eta, bathymetry_2d=G.bath, tracer=G.q, salt_3d=G.q2)
        so.mesh = G.m
        td = []

        class Depth:
            def get_total_depth(self, eta):
                td.append(eta)
                return G.bath*2 + eta       # any depth model
        so.depth = Depth()
        forms = []
        pp = [(ut, 'assemble', lambda f, **k: forms.append(f) or 2.0), (cb, 'assemble', lambda f, **k: forms.append(f) or 2.0)]
        with patched(*pp):
            L = [cb.VolumeConservation2DCallback(so, **OFF), cb.VolumeConservation3DCallback(so, **OFF),
                 cb.TracerMassConservation2DCallback('tracer', so, **OFF), cb.ConservativeTracerMassConservation2DCallback('tracer', so, **OFF),
                 cb.TracerMassConservationCallback('salt_3d', so, **OFF)]
            for c in L:
                h.prove(c() == (2.0, 0.0), 'assembled value, no change at first')
        h.prove([c.name for c in L] == ['volume2d', 'volume3d', 'tracer mass', 'tracer mass', 'salt_3d mass'], 'names')
        want = [e + b, 1, q*(2*b + e), q, q2]
        h.prove(len(forms) == 5, 'one integral each')
        for f, w, c in zip(forms, want, L):
            h.prove_eq(p.integral(f), w, f'{type(c).__name__} integrates', tol=Fr(1, 10**9), scale=1e3)
            h.prove(all(i.subdomain_id() == 'everywhere' and i.integral_type() == 'cell' for i in f.integrals()), 'over the whole domain')


def accumulator(h):
    v = [h.real(f'v{k}', lo=-100, hi=100) for k in range(N)]
    dt = h.real('dt', lo=0.1, hi=100)
    it = iter(v)

    class C(cb.AccumulatorCallback):
        name = 'mine'
    so = base(h, dt=dt)
    c = C(lambda: next(it), so)
    h.prove(not c.append_to_hdf5 and not c.append_to_log, 'quiet by default')
    for k in range(N):
        h.prove_eq(c(), v[k], 'value of the step')
        w = sum((v[i] + v[i + 1])*dt for i in range(k))/2 if k else 0
        h.prove_eq(c.get_val(), w, 'trapezoidal rule over the steps taken', tol=0 if h.symbolic else 1e-7)


# ---- sampling -------------------------------------------------------------------------------------------------------
class Field:
    """affine function of position"""
    def __init__(self, h, name, dim=1, gdim=2):
        self.c = [[h.real(f'{name}{i}{j}', lo=-3, hi=3) for j in range(gdim + 1)] for i in range(dim)]
        self.dim, self.gdim = dim, gdim

    def function_space(self):
        return SimpleNamespace(value_size=self.dim)

    def val(self, x):
        r = [c[0] + sum(a*b for a, b in zip(c[1:], x)) for c in self.c]
        return r[0] if self.dim == 1 else np.array(r, dtype=object)

    def at(self, x, **kw):
        x = np.array(x, dtype=object)
        assert x.shape[-1] == self.gdim, 'dimension'
        return self.val(x) if x.ndim == 1 else [self.val(q) for q in x]

    def vals(self, x):
        v = self.val(x)
        return [v] if self.dim == 1 else list(v)


class At:
    def __init__(self, log):
        self.data, self.log = None, log

    @property
    def dat(self):
        return SimpleNamespace(data_ro=self.data)


def vom(log):
    def make(so, names, locs):
        locs = [tuple(q) for q in locs]
        perm = list(range(len(locs)))[::-1]
        out = {}
        for n in names:
            a, b = At(log), At(log)

            def ia(f, a=a):
                a.data = np.array([f.val(locs[i]) for i in perm], dtype=object)

            def ib(s, a=a, b=b):
                assert s is a
                r = [None]*len(perm)
                for i, q in zip(perm, s.data):
                    r[i] = q
                b.data = np.array(r, dtype=object)
            a.interpolate, b.interpolate = ia, ib
            out[n] = (a, b)
        log.append((tuple(names), locs))
        return out
    return make


def detectors(nd):
    def run(h):
        f1, f2 = Field(h, 'a'), Field(h, 'b', 2)
        so = base(h)
        so.fields = {'elev_2d': f1, 'uv_2d': f2}
        locs = [(h.real(f'x{i}', lo=-10, hi=10), h.real(f'y{i}', lo=-10, hi=10)) for i in range(nd)]
        order = h.choice('fields', [('elev_2d', 'uv_2d'), ('uv_2d', 'elev_2d'), ('uv_2d',)])
        named = h.bool('named')
        log = []
        with patched((cb, 'vom_interpolator_functions', vom(log))):
            c = cb.DetectorsCallback(so, locs, list(order), 'dets', detector_names=[f'd{i}' for i in range(nd)] if named else None,
                                     export_to_hdf5=False)
        h.prove(c.name == 'dets' and c.append_to_log is False, 'name')
        h.prove(len(set(c.variable_names)) == nd and (not named or c.variable_names == [f'd{i}' for i in range(nd)]), 'one variable per detector')
        h.prove(c.array_dim == sum(so.fields[k].dim for k in order), 'components')
        for step in range(2):
            if step:
                so.fields['elev_2d'].c = [[h.real(f'an{j}', lo=-3, hi=3) for j in range(3)]]
            r = c()
            h.prove(np.shape(r) == (nd, c.array_dim), 'one row per detector')
            for i in range(nd):
                w = [q for k in order for q in so.fields[k].vals(locs[i])]
                for a, b in zip(r[i], w):
                    h.prove_eq(a, b, 'field at the detector', tol=one(h))
                pf = c._values_per_field(list(r[i]))
                h.prove([len(q) for q in pf] == [so.fields[k].dim for k in order], 'values per field')
                for a, b in zip([q for g in pf for q in g], w):
                    h.prove_eq(a, b, 'values per field', tol=one(h))
        for i, n in enumerate(c.variable_names):
            h.prove_eq(c.var_attrs[n]['x'], locs[i][0], 'x of the detector')
            h.prove_eq(c.var_attrs[n]['y'], locs[i][1], 'y of the detector')
        bad = False
        try:
            with patched((cb, 'vom_interpolator_functions', vom(log))):
                cb.DetectorsCallback(so, locs, list(order), 'dets', detector_names=['a']*(nd + 1))
        except AssertionError:
            bad = True
        h.prove(bad, 'names of another number are refused')
    return run


class NP:
    def __init__(self, h):
        self.h = h

    def __getattr__(self, k):
        return getattr(np, k)

    def zeros(self, s, *a, **k):
        return np.full(s, 0, dtype=object)

    @staticmethod
    def _bin(f):
        def g(a, b):
            a, b = np.broadcast_arrays(np.array(a, dtype=object), np.array(b, dtype=object))
            r = np.empty(a.shape, dtype=object)
            for i in np.ndindex(a.shape):
                r[i] = a[i] if bool(f(a[i], b[i])) else b[i]
            return r
        return g

    @property
    def maximum(self):
        return self._bin(lambda a, b: a >= b)

    @property
    def minimum(self):
        return self._bin(lambda a, b: a <= b)

    def linspace(self, a, b, n, *q, **k):
        if not isinstance(a, np.ndarray):
            if not is_sym(a) and not is_sym(b):
                return np.array([Fr(a) + (Fr(b) - Fr(a))*Fr(i, n - 1) for i in range(n)], dtype=object) if n > 1 else np.array([a])
        return np.array([a + (b - a)*Fr(i, n - 1) for i in range(n)], dtype=object)


def nppatch(h):
    return [(cb, 'numpy', NP(h))] if h.symbolic else []


def num(h, v):
    return np.array(v, dtype=object if h.symbolic else float)


def series2d(h):
    sphere = h.bool('sphere')
    custom = h.bool('eval_func')
    g = 3 if sphere else 2
    f1, f2 = Field(h, 'a', gdim=g), Field(h, 'b', gdim=g)
    so = base(h, mesh2d=SimpleNamespace(geometric_dimension=g))
    so.fields = type('F', (dict,), {'__getattr__': dict.__getitem__})(elev_2d=f1, salt_2d=f2, bathymetry_2d=f1)
    x, y, z = (h.real(k, lo=-10, hi=10) for k in 'xyz')
    log, ev = [], []

    def func(f, xyz, tolerance=None):
        ev.append(tolerance)
        return f.at(xyz)
    tol = h.real('tol', lo=0, hi=1)
    with patched((cb, 'vom_interpolator_functions', vom(log)), *nppatch(h)):
        c = cb.TimeSeriesCallback2D(so, ['elev_2d', 'salt_2d'], x, y, 'here', z=z if sphere else None, append_to_log=False,
                                    tolerance=tol, eval_func=func if custom else None)
        h.prove(c.variable_names == ['elev', 'salt'] and c.name == 'timeseries_here_elev-salt', 'names')
        for step in range(2):
            if step:
                f1.c = [[h.real(f'an{j}', lo=-3, hi=3) for j in range(g + 1)]]
            r = c()
            pos = (x, y, z)[:g]
            h.prove(len(r) == 2, 'one value per field')
            for q, f in zip(r, (f1, f2)):
                h.prove(np.shape(q) == (1,), 'one point')
                h.prove_eq(q[0], f.val(pos), 'field at the station', tol=one(h))
    for t in ev:
        h.prove_eq(t, tol, 'tolerance is passed on')


def series3d(h):
    f1, f2, b = Field(h, 'a', gdim=3), Field(h, 'b', gdim=3), Field(h, 'd', gdim=2)
    so = base(h)
    so.fields = type('F', (dict,), {'__getattr__': dict.__getitem__})(salt_3d=f1, temp_3d=f2, bathymetry_2d=b)
    x, y, z = (h.real(k, lo=-10, hi=10) for k in 'xyz')
    with patched((cb, 'warning', lambda *a: None), *nppatch(h)):
        c = cb.TimeSeriesCallback3D(so, ['salt_3d', 'temp_3d'], x, y, z, 'here', append_to_log=False)
        h.prove(c.variable_names == ['salt', 'temp'] and c.name == 'timeseries_here_salt-temp', 'names')
        bed = -b.val((x, y))
        if not h.symbolic and abs(z - bed) < 1e-6:
            return
        zz = z if bool(z >= bed) else bed + (Fr(1, 10) if h.symbolic else 0.1)
        for step in range(2):
            if step:
                f1.c = [[h.real(f'an{j}', lo=-3, hi=3) for j in range(4)]]
            r = c()
            for q, f in zip(r, (f1, f2)):
                h.prove(np.shape(q) == (1,), 'one point')
                h.prove_eq(q[0], f.val((x, y, zz)), 'field at the station, never below the bed', tol=one(h))


def setup3d(h):
    f1, f2 = Field(h, 'a', gdim=3), Field(h, 'b', 3, gdim=3)
    b, e = Field(h, 'd', gdim=2), Field(h, 'e', gdim=2)
    so = base(h)
    so.fields = type('F', (dict,), {'__getattr__': dict.__getitem__})(salt_3d=f1, uv_3d=f2, bathymetry_2d=b, elev_cg_2d=e)
    return so, f1, f2, b, e


def profile(h):
    so, f1, f2, b, e = setup3d(h)
    so.fields['temp_3d'] = ft = Field(h, 't', gdim=3)
    x, y = (h.real(k, lo=-10, hi=10) for k in 'xy')
    n = 3
    with patched(*nppatch(h)):
        c = cb.VerticalProfileCallback(so, ['salt_3d', 'temp_3d'], x, y, 'here', npoints=n, append_to_log=False)
        h.prove(c.variable_names == ['z_coord', 'salt', 'temp'] and c.array_dim == n, 'names')
        for step in range(2):
            if step:
                e.c = [[h.real(f'en{j}', lo=-3, hi=3) for j in range(3)]]
            h.assume(b.val((x, y)) + e.val((x, y)) >= 0.5)
            r = c()
            z = [q for q in r[0]]
            h.prove(len(r) == 3 and all(len(q) == n for q in r), 'depths and one profile per field')
            top, bot = e.val((x, y)), -b.val((x, y))
            h.prove_le(z[0], top, 'below the surface', tol=one(h))
            h.prove_ge(z[0], top - (Fr(1, 50)), 'close to the surface')
            h.prove_ge(z[-1], bot, 'above the bed', tol=one(h))
            h.prove_le(z[-1], bot + Fr(1, 50), 'close to the bed')
            h.prove_eq(z[1] - z[0], z[2] - z[1], 'evenly spaced', tol=Fr(1, 10**9))
            for i in range(n):
                for q, f in zip(r[1:], (f1, ft)):
                    h.prove_eq(q[i], f.val((x, y, z[i])), 'field at these depths', tol=0 if h.symbolic else 1e-7)


def transect(zs):
    def run(h):
        so, f1, f2, b, e = setup3d(h)
        nx, nz = 2, 3
        xs = [h.real(f'x{i}', lo=-10, hi=10) for i in range(nx)]
        ys = [h.real(f'y{i}', lo=-10, hi=10) for i in range(nx)]
        const = h.choice('const', ['', 'x', 'y'])
        X, Y = num(h, xs), num(h, ys)
        if const == 'x':
            xs = [xs[0]]*nx
            X = xs[0]
        if const == 'y':
            ys = [ys[0]]*nx
            Y = ys[0]
        zmin = h.real('zmin', lo=-50, hi=0) if 'b' in zs else None
        zmax = h.real('zmax', lo=-50, hi=5) if 't' in zs else None
        with patched(*nppatch(h)):
            c = cb.TransectCallback(so, ['salt_3d', 'uv_3d'], X, Y, 'here', n_points_z=nz, z_min=zmin, z_max=zmax, append_to_log=False)
            h.prove(c.variable_names == ['z_coord', 'salt', 'uv_x', 'uv_y', 'uv_z'], 'names')
            h.prove(tuple(c.array_dim) == (nz, nx), 'shape')
            r = c()
        h.prove(len(r) == 5 and all(np.shape(q) == (nz, nx) for q in r), 'depths and one array per component')
        for i in range(nx):
            pos = (xs[i], ys[i])
            top, bot = e.val(pos), -b.val(pos)
            d = Fr(1, 10**5)
            # the extent: from the bed to the surface, or the given limits where these are inside
            hi = top - d if zmax is None or bool(zmax >= top - d) else zmax
            lo = bot + d if zmin is None or bool(zmin <= bot + d) else zmin
            for k in range(nz):
                z = r[0][k][i]
                h.prove_eq(z, hi + (lo - hi)*Fr(k, nz - 1), 'depths from top to bottom', tol=Fr(1, 10**7))
                for q, w in zip(r[1:], f1.vals(pos + (z,)) + f2.vals(pos + (z,))):
                    h.prove_eq(q[k][i], w, 'field at these points', tol=0 if h.symbolic else 1e-6)
    return run


ck.harness('scalar', scalar)
ck.harness('minmax', minmax, max_paths=400)
ck.harness('overshoot', overshoot, max_paths=2000)
ck.harness('mass', mass)
ck.harness('accumulator', accumulator)
for nd in (1, 2, 3):
    ck.harness(f'detectors[{nd}]', detectors(nd))
ck.harness('series2d', series2d)
ck.harness('series3d', series3d)
ck.harness('profile', profile)
for zs in ('', 'b', 't', 'bt'):
    ck.harness(f'transect[{zs}]', transect(zs), max_paths=800)
ck.finish()
