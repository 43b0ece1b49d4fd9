"""C24: spatial interpolation from grids"""
from stand import *
import os
import shutil
import tempfile
from types import SimpleNamespace
import numpy as np
import netCDF4
import firedrake as fd
import scipy.spatial
import thetis.interpolation as ip

ck = Check('C24', 'grid interpolation')
TECHNIQUE = 'symbolic execution of the real interpolators on symbolic target points and source values; the enclosing simplex of' \
            ' the (real) triangulation is a branch decided by z3, as is the nearest source point'
ck.encoded('interpolation.GridInterpolator.__init__/__call__', 'interpolation._get_subset_nodes',
           'interpolation.SpatialInterpolator2d.__init__/_create_interpolator',
           'interpolation.NetCDFLatLonInterpolator2d.interpolate', 'interpolation.get_ncvar_name',
           'interpolation.NetCDFSpatialInterpolator.__call__')
ck.bound('source grids: fixed irregular point sets of 4-7 points (2D) and 5 points (3D), structured 3x4 grids, curvilinear 3x3;'
         ' target points and source values arbitrary; at most 2 symbolic target points at a time')
ck.assumed('scipy.spatial triangulates correctly (its structure is used as is); NetCDF files are stand-ins')
EPS = Fr(1, 10**7)
SLACK = Fr(1, 10**12)       # tolerance of the search (scipy: 100 machine epsilons)


class Tri:
    """the real triangulation of concrete points; the search for a target is decided by the solver"""
    def __init__(self, pts):
        p = np.array([[float(q) for q in r] for r in pts])
        self.t = scipy.spatial.Delaunay(p)
        self.p = p
        self.simplices = self.t.simplices
        self.transform = np.vectorize(frac, otypes=[object])(self.t.transform)

    def find_simplex(self, x):
        out = []
        d = self.p.shape[1]
        for q in x:
            found = -1
            for k, T in enumerate(self.transform):
                b = [sum((T[i, j]*(q[j] - T[d, j]) for j in range(d)), 0) for i in range(d)]
                b.append(1 - sum(b, 0))
                c = z3.And(*[raw_bool(w >= -SLACK) if is_sym(w) else z3.BoolVal(bool(w >= -SLACK)) for w in b])
                if bool(SymBool(c)):
                    found = k
                    break
            out.append(found)
        return np.array(out, dtype=int)


class KD:
    def __init__(self, pts):
        self.pts = pts

    def query(self, x):
        d, ix = [], []
        for q in x:
            dd = [sum((a - b)*(a - b) for a, b in zip(q, p)) for p in self.pts]
            k = 0
            for i in range(1, len(dd)):
                if dd[i] < dd[k]:
                    k = i
            d.append(dd[k])
            ix.append(k)
        return np.array(d, dtype=object), np.array(ix, dtype=int)


class NP:
    def __getattr__(self, k):
        return getattr(np, k)

    @staticmethod
    def isfinite(a):
        a = np.asarray(a)
        return np.isfinite(a) if a.dtype != object else np.vectorize(lambda q: True if is_sym(q) else bool(np.isfinite(float(q))),
                                                                      otypes=[bool])(a)

    @staticmethod
    def full_like(a, v, **k):
        return np.full(np.shape(a), v, dtype=object)


def shims(h):
    if not h.symbolic:
        return []
    return [(ip, 'qhull', SimpleNamespace(Delaunay=Tri, QhullError=scipy.spatial.QhullError)), (ip, 'numpy', NP()),
            (scipy.spatial, 'cKDTree', KD)]


def arr(h, x):
    return np.array(x, dtype=object if h.symbolic else float)


def isnan(x):
    return not is_sym(x) and not isinstance(x, Fraction) and bool(np.isnan(float(x)))


def either(h, cs):
    r = False
    for c in cs:
        r = (c | r) if is_sym(c) else ((r | c) if is_sym(r) else (bool(r) or bool(c)))
    return r


GRIDS = {'square': [(0, 0), (1, 0), (0.25, 1), (1.5, 1.25)],
         'irregular': [(0, 0), (2, 0.5), (0.5, 2), (2.5, 2.25), (1.25, 1), (-1, 1.5)],
         'shifted': [(100.5, -40), (104.25, -41), (102, -37.5), (103, -39.5), (101, -38.75)],
         'tetra': [(0, 0, 0), (2, 0.25, 0), (0.25, 2, 0.5), (0.5, 0.5, 2), (1.75, 1.5, 1.25)]}


def inside_of(h, g, x):
    """margin by which x lies in the convex hull (facet by facet)"""
    hull = scipy.spatial.ConvexHull(np.array(g, dtype=float))
    out = []
    for e in hull.equations:
        f = frac if h.symbolic else float
        out.append(-(sum(f(a)*q for a, q in zip(e[:-1], x)) + f(e[-1])))
    return out


def grid(name, mode, linear):
    def run(h):
        g = GRIDS[name]
        d = len(g[0])
        lo, hi = np.min(g, axis=0) - 1, np.max(g, axis=0) + 1
        x = [h.real(f'x{i}', lo=float(lo[i]), hi=float(hi[i])) for i in range(d)]
        fill = h.real('fill', lo=-99, hi=-9) if mode == 'value' else np.nan
        other = [float(q) for q in np.mean(g, axis=0)]                  # a second target: the rows must not mix
        far = [float(g[1][i]) + (5 + 0.5*i)*(float(g[1][i]) - other[i]) for i in range(d)]        # outside, beyond the second point
        kfar = int(np.argmin([sum((a - b)**2 for a, b in zip(far, p)) for p in g]))
        if linear:
            c = [h.real(f'c{i}', lo=-10, hi=10) for i in range(d + 1)]
            lin = lambda p: c[0] + sum(a*(frac(b) if h.symbolic and not is_sym(b) else b) for a, b in zip(c[1:], p))
            vals = [lin(p) for p in g]
        else:
            vals = [h.real(f'v{i}', lo=-10, hi=10) for i in range(len(g))]
        kw = {} if mode == 'nan' else dict(fill_mode='nearest') if mode == 'nearest' else dict(fill_value=fill)
        m = inside_of(h, g, x)
        tol = Fr(1, 10**6)
        # keep off the rounding of the hull's edge
        for q in m:
            if h.symbolic:
                h.assume((q > tol) | (q < -tol))
            elif abs(q) < 5e-7:
                h.assume(False)
        with patched(*shims(h)):
            gi = ip.GridInterpolator(arr(h, [[frac(q) if h.symbolic else q for q in p] for p in g]), arr(h, [x, other, [frac(q) if h.symbolic else q for q in far]]), **kw)
            r = gi(arr(h, vals))
        h.prove(len(r) == 3, 'one value per target')
        inside = all(bool(q > 0) for q in m)
        r, r2, r3 = r
        if mode == 'nan':
            h.prove(isnan(r3), 'masked at a third target')
        else:
            h.prove(not isnan(r3), 'filled at a third target')
            h.prove_eq(r3, fill if mode == 'value' else vals[kfar], 'filled at a third target', tol=EPS)
        if linear:
            h.prove_eq(r2, lin(other), 'linear data at a second target', tol=EPS)
        if inside:
            h.prove(not isnan(r), 'a value inside the grid')
            if isnan(r):
                return
            if linear:
                h.prove_eq(r, lin(x), 'linear data are reproduced', tol=EPS)
            else:
                h.prove(either(h, [r <= v + EPS for v in vals]), 'not above the largest source value')
                h.prove(either(h, [r >= v - EPS for v in vals]), 'not below the smallest source value')
        elif mode == 'nan':
            h.prove(isnan(r), 'masked outside the grid')
        elif mode == 'value':
            h.prove(not isnan(r), 'filled')
            h.prove_eq(r, fill, 'filled with the given value')
        else:
            h.prove(not isnan(r), 'filled')
            dist = [sum((a - b)*(a - b) for a, b in zip(x, p)) for p in g]
            near = [i for i in range(len(g)) if all(bool(dist[i] <= q + (0 if h.symbolic else 1e-9)) for q in dist)]
            h.prove(either(h, [r == vals[i] if h.symbolic else abs(r - vals[i]) < 1e-9 for i in near]),
                    'filled with the nearest source value')
    return run


def normalised(h):
    """scaling to the unit cube does not change the result for linear data"""
    g = [(0, 0, 0), (2000, 0.25, 0), (250, 2, -50), (500, 0.5, -200), (1750, 1.5, -125)]
    t = [(300, 0.6, -70), (900, 0.7, -60), (700, 0.5, -50)]
    c = [h.real(f'c{i}', lo=-1, hi=1) for i in range(4)]
    f = frac if h.symbolic else float
    lin = lambda p: c[0] + sum(a*f(b) for a, b in zip(c[1:], p))
    pp = [] if not h.symbolic else [(ip, 'numpy', NP())]
    with patched(*pp):
        gi = ip.GridInterpolator(np.array(g, dtype=float), np.array(t, dtype=float), normalize=True)
        r = gi(arr(h, [lin(p) for p in g]))
    for i, p in enumerate(t):
        h.prove_eq(r[i], lin(p), 'linear data are reproduced', tol=Fr(1, 10**6))


def degenerate(mode):
    """points that cannot be triangulated"""
    def run(h):
        g = [(0, 0), (1, 1), (2, 2)]
        t = [(0.1, 0), (1.2, 0.9), (3, 3)]
        v = [h.real(f'v{i}', lo=-10, hi=10) for i in range(3)]
        fill = h.real('fill', lo=-9, hi=9)
        kw = dict(fill_mode='nearest') if mode == 'nearest' else dict(fill_value=fill)
        raised = False
        gg, tt = np.array(g, dtype=float), np.array(t, dtype=float)
        try:
            r = ip.GridInterpolator(gg, tt, dont_raise=mode != 'raise', **kw)(arr(h, v))
        except scipy.spatial.QhullError:
            raised = True
        h.prove(raised == (mode == 'raise'), 'raises unless told not to')
        if not raised:
            for i in range(3):
                h.prove_eq(r[i], v[i] if mode == 'nearest' else fill, 'nearest value or fill value')
    return run


# ---- grids in NetCDF files ------------------------------------------------------------------------------------------
class Var:
    def __init__(self, a, name, **at):
        self.a, self.name, self.at = a, name, at
        self.__dict__.update(at)

    def ncattrs(self):
        return list(self.at)

    def __getitem__(self, k):
        r = self.a[k]
        return r.copy() if isinstance(r, np.ndarray) else r


class Data:
    def __init__(self, v):
        self.v = v

    def __call__(self, fn, mode='r'):
        v = self.v

        class D:
            variables = v

            def __getitem__(self, k):
                return v[k]

            def __enter__(self):
                return self

            def __exit__(self, *a):
                pass

            def filepath(self):
                return fn
        return D()


LON = [10.0, 11.0, 12.5, 13.0]
LAT = [50.0, 51.5, 52.0]
_fs = {}


def space(kind):
    if kind not in _fs:
        m = fd.UnitTriangleMesh() if kind == 'plane' else fd.UnitIcosahedralSphereMesh(0)
        _fs[kind] = fd.FunctionSpace(m, 'CG', 1)
    return _fs[kind]


def netcdf(layout, linear, mode='nan', nsym=2):
    def run(h):
        V = space('plane')
        n = 3
        lon0, lat0 = [10.5, 12.2, 11.75], [50.25, 50.5, 51.75]
        pts = []
        for i in range(n):
            if i < nsym:
                pts.append((h.real(f'lon{i}', lo=9, hi=14), h.real(f'lat{i}', lo=49, hi=53)))
            else:
                pts.append((lon0[i], lat0[i]))
        seen = []

        class CS:
            def to_lonlat(self, *xy):
                seen.append(xy)
                return arr(h, [p[0] for p in pts]), arr(h, [p[1] for p in pts])
        ny, nx, nt = 3, 4, 2
        f = frac if h.symbolic else float
        if layout == 'curvilinear':
            lon2 = np.array([[LON[i] + 0.25*j for i in range(nx)] for j in range(ny)])
            lat2 = np.array([[LAT[j] + 0.125*i for i in range(nx)] for j in range(ny)])
        else:
            lon2, lat2 = np.meshgrid(LON, LAT)
        c = [h.real(f'c{i}', lo=-10, hi=10) for i in range(3)]
        lin = lambda x, y: c[0] + c[1]*(x - 10) + c[2]*(y - 50)
        vals = {}
        for v in ('a', 'b'):
            for t in range(nt):
                for j in range(ny):
                    for i in range(nx):
                        if linear and v == 'b' and t == 1:
                            vals[v, t, j, i] = lin(f(lon2[j, i]), f(lat2[j, i]))
                        elif linear:
                            vals[v, t, j, i] = 77 + 10*t + i*i + 3*j + (v == 'b')*5
                        else:
                            vals[v, t, j, i] = h.real(f'{v}{t}_{j}_{i}', lo=-10, hi=10)
        A = {v: arr(h, [[[vals[v, t, j, i] for i in range(nx)] for j in range(ny)] for t in range(nt)]) for v in ('a', 'b')}
        # stay off the edges of the grid, where rounding decides
        tol = Fr(1, 10**6)
        hull = [(lon2[j, i], lat2[j, i]) for j in range(ny) for i in range(nx)]
        M = []
        for p in pts:
            m = inside_of(h, hull, p)
            for q in m:
                if is_sym(q):
                    h.assume((q > tol) | (q < -tol))
                elif abs(q) < 5e-7:
                    h.assume(False)
            M.append(all(bool(q > 0) for q in m))
        if mode == 'in':
            h.assume(all(M))
        elif mode == 'nearest':
            h.assume(not M[0])
        names = {'1d': ('lat', 'lon'), '2d': ('nav_lat', 'nav_lon'), 'curvilinear': ('gridlat', 'gridlon')}[layout]
        at = {'1d': {}, '2d': dict(standard_name='latitude'), 'curvilinear': dict(long_name='Latitude')}[layout]
        at2 = {k: v.replace('atitude', 'ongitude').replace('lo', 'lo').replace('l', 'l').replace('L', 'L') for k, v in at.items()}
        at2 = {k: {'longitude': 'longitude', 'Longitude': 'Longitude', 'longitude': 'longitude'}.get(v, 'longitude') for k, v in at2.items()}
        one = layout == '1d'
        d = None
        pp = shims(h)
        if h.symbolic:
            # coordinates decide the triangulation: they stay concrete
            V1 = {'time': Var(np.arange(nt), 'time', units='s'),
                  names[0]: Var(np.array(LAT) if one else lat2, names[0], **at), names[1]: Var(np.array(LON) if one else lon2, names[1], **at2),
                  'a': Var(A['a'], 'a', standard_name='height'), 'b': Var(A['b'], 'b')}
            fn = 'file.nc'
            pp = pp + [(ip, 'netCDF4', SimpleNamespace(Dataset=Data(V1)))]
        else:
            d = tempfile.mkdtemp()
            fn = os.path.join(d, 'file.nc')
            with netCDF4.Dataset(fn, 'w') as nc:
                for k, q in (('time', nt), ('y', ny), ('x', nx)):
                    nc.createDimension(k, q)
                nc.createVariable('time', 'f8', ('time',))[:] = np.arange(nt)
                for k, dim, src, aa in ((names[0], 'y', np.array(LAT) if one else lat2, at), (names[1], 'x', np.array(LON) if one else lon2, at2)):
                    q = nc.createVariable(k, 'f8', (dim,) if one else ('y', 'x'))
                    q[:] = src
                    for b, e in aa.items():
                        setattr(q, b, e)
                for k in ('a', 'b'):
                    nc.createVariable(k, 'f8', ('time', 'y', 'x'))[:] = A[k]
        try:
            with patched(*pp):
                kw = dict(fill_mode='nearest') if mode == 'nearest' else dict(fill_value=-55.0) if mode == 'value' else {}
                I = ip.NetCDFLatLonInterpolator2d(V, CS(), **kw)
                rd = ip.NetCDFSpatialInterpolator(I, ['b', 'a'])
                try:
                    out = rd(fn, 1)
                    out = rd(fn, 1)                                     # the second read uses the stored weights
                except scipy.spatial.QhullError:
                    out = None
        finally:
            if d:
                shutil.rmtree(d)
        xy = V.mesh().coordinates.dat.data_ro
        h.prove(len(seen) == 1 and np.allclose(seen[0][0], xy[:, 0]) and np.allclose(seen[0][1], xy[:, 1]),
                'targets are the nodes of the mesh')
        if out is None:
            h.prove(False, 'the grid can be triangulated')
            return
        h.prove(len(out) == 2 and len(out[0]) == n and len(out[1]) == n, 'one array per variable, one value per node')
        for k in range(n):
            r, ra = out[0][k], out[1][k]
            x, y = pts[k]
            if not M[k]:
                if mode == 'nearest':
                    h.prove(not isnan(r), 'filled outside')
                    dist = {(j, i): (x - f(lon2[j, i]))*(x - f(lon2[j, i])) + (y - f(lat2[j, i]))*(y - f(lat2[j, i]))
                            for j in range(ny) for i in range(nx)}
                    near = [q for q in dist if all(bool(dist[q] <= e + (0 if h.symbolic else 1e-9)) for e in dist.values())]
                    h.prove(either(h, [r == vals['b', 1, j, i] if h.symbolic else abs(r - vals['b', 1, j, i]) < 1e-9 for j, i in near]),
                            'value of the nearest source point')
                elif mode == 'value':
                    h.prove_eq(r, -55, 'fill value outside')
                else:
                    h.prove(isnan(r), 'masked outside')
                continue
            h.prove(not isnan(r), 'a value inside')
            if isnan(r):
                continue
            if linear:
                h.prove_eq(r, lin(x if is_sym(x) else f(x), y if is_sym(y) else f(y)), 'linear data of the requested time and variable',
                           tol=EPS)
            elif layout != 'curvilinear':
                # bounded by the corners of the cell around the target
                i = max(0, sum(1 for q in LON[1:-1] if bool(x >= f(q))))
                j = max(0, sum(1 for q in LAT[1:-1] if bool(y >= f(q))))
                for rr, nm in ((r, 'b'), (ra, 'a')):
                    c4 = [vals[nm, 1, j + q, i + p] for q in (0, 1) for p in (0, 1)]
                    h.prove(either(h, [rr <= v + EPS for v in c4]), 'not above the corner values of its cell')
                    h.prove(either(h, [rr >= v - EPS for v in c4]), 'not below the corner values of its cell')
    return run


def sphere(h):
    """targets on a sphere: all three coordinates are converted"""
    V = space('sphere')
    seen = []

    class CS:
        def to_lonlat(self, *xyz):
            seen.append(xyz)
            return arr(h, [lon]*len(xyz[0])), arr(h, [lat]*len(xyz[0]))
    lon, lat = h.real('lon', lo=-180, hi=180), h.real('lat', lo=-90, hi=90)

    class I(ip.SpatialInterpolator2d):
        def interpolate(self, *a):
            pass
    with patched(*shims(h)):
        o = I(V, CS())
    X = V.mesh().coordinates.dat.data_ro
    h.prove(len(seen) == 1 and len(seen[0]) == 3, 'x, y and z are given')
    for i in range(3):
        h.prove(np.allclose(seen[0][i], X[:, i]), 'node coordinates')
    for k in range(len(X)):
        h.prove_eq(o.mesh_lonlat[k][0], lon, 'longitude first')
        h.prove_eq(o.mesh_lonlat[k][1], lat, 'latitude second')


def names(h):
    """variables are found by standard name, long name or name, whatever their order"""
    kinds = ['standard', 'long', 'name', 'absent']
    k = h.choice('kind', kinds)
    pos = h.choice('position', [0, 1, 2])
    upper = h.bool('upper')
    s = 'Sea Level' if upper else 'sea level'
    tgt = {'standard': Var(None, 'q', standard_name=s), 'long': Var(None, 'q', long_name=s),
           'name': Var(None, 'Zeta' if upper else 'zeta'), 'absent': Var(None, 'w', units='m')}[k]
    others = [Var(None, 'u', standard_name='velocity', long_name='sea'), Var(None, 'v', units='m')]
    vs = others[:pos] + [tgt] + others[pos:]
    nc = SimpleNamespace(variables={v.name: v for v in vs}, filepath=lambda: 'f')
    try:
        r = ip.get_ncvar_name(nc, standard_name='sea level', long_name=['level', 'sea level'], var_name='zeta')
    except ValueError:
        r = None
    h.prove(r == (None if k == 'absent' else tgt.name), 'the matching variable, ValueError if there is none')
    try:
        r2 = ip.get_ncvar_name(nc, long_name='sea level')
    except ValueError:
        r2 = None
    h.prove(r2 == (tgt.name if k == 'long' else None), 'criteria that are not given do not match')


def mismatch(h):
    """latitude and longitude must both be one- or two-dimensional"""
    which = h.choice('which', ['lat1', 'lon1'])
    lon2, lat2 = np.meshgrid(LON, LAT)
    v = {'lat': Var(np.array(LAT) if which == 'lat1' else lat2, 'lat'), 'lon': Var(np.array(LON) if which == 'lon1' else lon2, 'lon'),
         'a': Var(np.arange(12.0).reshape(1, 3, 4), 'a')}

    class CS:
        def to_lonlat(self, *xy):
            return np.array([10.5, 12.0, 11.0]), np.array([50.5, 51.0, 51.75])
    with patched((ip, 'netCDF4', SimpleNamespace(Dataset=Data(v)))):
        I = ip.NetCDFLatLonInterpolator2d(space('plane'), CS())
        try:
            I.interpolate('f', ['a'], 0)
            r = True
        except AssertionError:
            r = False
        except Exception:
            r = True
    h.prove(not r, 'mixed one- and two-dimensional coordinates are refused')


for g in GRIDS:
    for m in ('nan', 'value', 'nearest') if g != 'tetra' or ck.thorough else ('nan',):
        ck.harness(f'grid[{g}-{m}-linear]', grid(g, m, True), max_paths=3000)
        ck.harness(f'grid[{g}-{m}-any]', grid(g, m, False), max_paths=3000)
ck.harness('normalised', normalised)
for m in ('raise', 'nearest', 'fill'):
    ck.harness(f'degenerate[{m}]', degenerate(m))
for l in ('1d', '2d', 'curvilinear'):
    ck.harness(f'netcdf[{l}-linear]', netcdf(l, True, 'in', 2 if ck.thorough else 1), max_paths=5000)
    ck.harness(f'netcdf[{l}-any]', netcdf(l, False, 'in', 1), max_paths=5000)
ck.harness('netcdf[2d-outside]', netcdf('2d', True, 'nan', 1), max_paths=5000)
ck.harness('netcdf[curvilinear-value]', netcdf('curvilinear', True, 'value', 1), max_paths=5000)
ck.harness('netcdf[1d-nearest]', netcdf('1d', True, 'nearest', 1), max_paths=5000)
ck.harness('sphere', sphere)
ck.harness('names', names)
ck.harness('mixed coordinates', mismatch)
ck.finish()
