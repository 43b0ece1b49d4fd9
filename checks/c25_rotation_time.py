"""C25: vector rotation, coordinate conversion and time zones"""
from stand import *
from types import SimpleNamespace
import numpy as np
import pytz
import firedrake as fd
import thetis.coordsys as cs
import thetis.timezone as tz

ck = Check('C25', 'rotation and time')
TECHNIQUE = 'symbolic execution of the real rotation, coordinate and time zone code on symbolic vectors, projections (uninterpreted' \
            ' functions), offsets and instants; z3 proves isometry, inverse and direction'
ck.encoded('coordsys.get_vector_rotation_matrix', 'coordsys.VectorCoordSysRotation.*', 'coordsys.proj_transform',
           'coordsys.UTMCoordinateSystem.*', 'timezone.FixedTimeZone.*', 'timezone.datetime_to_epoch/epoch_to_datetime')
ck.bound('1-3 locations; projection arbitrary with a regular derivative; real-valued instants')
ck.assumed('pyproj is a stand-in; dates are instants plus offset (calendar arithmetic of the standard library is trusted)')


def arr(h, x):
    return np.array(x, dtype=object if h.symbolic else float)


class NP:
    def __getattr__(self, k):
        return getattr(np, k)

    @staticmethod
    def isfinite(a):
        a = np.asarray(a)
        return np.vectorize(lambda q: True if is_sym(q) else bool(np.isfinite(float(q))), otypes=[bool])(a)

    @staticmethod
    def full_like(a, v, **k):
        return np.full(np.shape(a), v, dtype=object)

    @staticmethod
    def mod(a, b):
        return a % b


def shims(h):
    return [(cs, 'numpy', NP())] if h.symbolic else []


class Trans:
    """a projection about which nothing is known: every point gets its own image; images are written as the image of
    the nearest known point plus step times slope, so that finite differences of the code become plain symbols"""
    def __init__(self, h, step, name='p'):
        self.h, self.name, self.step = h, name, step
        self.pts = []

    def one(self, x, y):
        for px, py, im in self.pts:
            if self._same(px, x) and self._same(py, y):
                return im
        k = len(self.pts)
        p, q = self.h.real(f'{self.name}{k}x', lo=-100, hi=100), self.h.real(f'{self.name}{k}y', lo=-100, hi=100)
        base = [im for px, py, im in self.pts if self._near(px, x) and self._near(py, y)]
        im = (base[0][0] + self.step*p, base[0][1] + self.step*q) if base else (p, q)
        self.pts.append((x, y, im))
        return im

    def _diff(self, a, b):
        d = z3.simplify(raw(a) - raw(b)) if is_sym(a) or is_sym(b) else a - b
        if isinstance(d, z3.ExprRef):
            if z3.is_rational_value(d):
                return Fr(d.numerator_as_long(), d.denominator_as_long())
            d = z3.simplify(d - raw(self.step)) if is_sym(self.step) else d
            return 'step' if z3.is_rational_value(d) and d.numerator_as_long() == 0 else None
        return d

    def _same(self, a, b):
        d = self._diff(a, b)
        return d is not None and d != 'step' and abs(d) < 1e-12

    def _near(self, a, b):
        d, e = self._diff(a, b), self._diff(b, a)
        return 'step' in (d, e) or d is not None and abs(d) < 2e-6 or not is_sym(self.step) and d is not None \
            and abs(d) < 1.5*self.step

    def transform(self, x, y):
        if isinstance(x, np.ndarray):
            r = [self.one(a, b) for a, b in zip(x.ravel(), np.asarray(y).ravel())]
            return arr(self.h, [q[0] for q in r]), arr(self.h, [q[1] for q in r])
        return self.one(x, y)


def direction(h, tr, x, y, d):
    """slope of the image northward"""
    a, b = tr.one(x, y), tr.one(x, y + d)
    return ((b[0] - a[0])/d, (b[1] - a[1])/d)


def rotate(given, scalar):
    def run(h):
        n = 1 if scalar else 2
        f = frac if h.symbolic else float
        d = f(1e-6)
        tr = Trans(h, d)
        X = [h.real(f'x{i}', lo=-180, hi=180) for i in range(n)]
        Y = [h.real(f'y{i}', lo=-80, hi=80) for i in range(n)]
        vx, vy = [h.real(f'vx{i}', lo=-50, hi=50) for i in range(n)], [h.real(f'vy{i}', lo=-50, hi=50) for i in range(n)]
        dirs = [direction(h, tr, x, y, d) for x, y in zip(X, Y)]
        for a, b in dirs:
            h.assume((a*a + b*b) > 0 if h.symbolic else a*a + b*b > 1e-6)
        x, y = (X[0], Y[0]) if scalar else (arr(h, X), arr(h, Y))
        with patched(*shims(h)):
            if given == 'matrix':
                R, th = cs.get_vector_rotation_matrix(tr, x, y)
                if scalar:
                    out = [(R[0][0]*vx[0] + R[0][1]*vy[0], R[1][0]*vx[0] + R[1][1]*vy[0])]
                    east, north = [(R[0][0], R[1][0])], [(R[0][1], R[1][1])]
                else:
                    out = [(R[0][0][i]*vx[i] + R[0][1][i]*vy[i], R[1][0][i]*vx[i] + R[1][1][i]*vy[i]) for i in range(n)]
                    east = [(R[0][0][i], R[1][0][i]) for i in range(n)]
                    north = [(R[0][1][i], R[1][1][i]) for i in range(n)]
                back = [(e[0]*o[0] + e[1]*o[1], m[0]*o[0] + m[1]*o[1]) for e, m, o in zip(east, north, out)]
            else:
                o = cs.VectorCoordSysRotation(tr, x, y)
                zero, one = arr(h, [0]*n), arr(h, [1]*n)
                u, v = o(arr(h, vx), arr(h, vy))
                out = list(zip(u, v))
                east, north = list(zip(*o(one, zero))), list(zip(*o(zero, one)))
                k = h.choice('node', list(range(n)))
                uk, vk = o(vx[k], vy[k], i_node=k)
                h.prove(np.size(uk) == 1 and np.size(vk) == 1, 'one node, one vector')
                h.prove_eq(np.ravel(uk)[0], u[k], 'one node at a time: x')
                h.prove_eq(np.ravel(vk)[0], v[k], 'one node at a time: y')
                back = [(e[0]*q[0] + e[1]*q[1], m[0]*q[0] + m[1]*q[1]) for e, m, q in zip(east, north, out)]
        tol = 0 if h.symbolic else 1e-6
        for i in range(n):
            u, v = out[i]
            h.prove_eq(u*u + v*v, vx[i]*vx[i] + vy[i]*vy[i], 'length is preserved', tol=tol)
            h.prove_eq(back[i][0], vx[i], 'the transposed rotation undoes it: x', tol=tol)
            h.prove_eq(back[i][1], vy[i], 'the transposed rotation undoes it: y', tol=tol)
            a, b = dirs[i]
            q = a*a + b*b
            r = q.sqrt() if is_sym(q) else math.sqrt(q)
            h.prove_eq(north[i][0]*r, a, 'north goes to the image of north: x', tol=tol)
            h.prove_eq(north[i][1]*r, b, 'north goes to the image of north: y', tol=tol)
            h.prove_eq(east[i][0]*r, b, 'east lies to the right of it: x', tol=tol)
            h.prove_eq(east[i][1]*r, -a, 'east lies to the right of it: y', tol=tol)
    return run


def delta(h):
    """user supplied finite difference step"""
    x, y, d = h.real('x', lo=-180, hi=180), h.real('y', lo=-80, hi=80), h.real('delta', gt=0, hi=1)
    tr = Trans(h, d)
    h.assume(d >= 1e-3)
    a, b = direction(h, tr, x, y, d)
    h.assume(a*a + b*b > 0 if h.symbolic else a*a + b*b > 1e-6)
    with patched(*shims(h)):
        R, th = cs.get_vector_rotation_matrix(tr, x, y, delta=d)
    q = a*a + b*b
    r = q.sqrt() if is_sym(q) else math.sqrt(q)
    h.prove_eq(R[0][1]*r, a, 'north: x', tol=0 if h.symbolic else 1e-8)
    h.prove_eq(R[1][1]*r, b, 'north: y', tol=0 if h.symbolic else 1e-8)


class Affine:
    """a pair of mutually inverse projections"""
    def __init__(self, h, c, inv):
        self.h, self.c, self.inv = h, c, inv

    def transform(self, x, y):
        a, b, c, d = self.c
        if self.inv:
            return (x - b)/a, (y - d)/c
        return a*x + b, c*y + d


def utm(h):
    """conversion there and back, either direction; missing entries stay missing; the rotator uses the projection to x, y"""
    made = []
    c = [h.real('sx', lo=1, hi=1e5), h.real('ox', lo=-1e6, hi=1e6), h.real('sy', lo=1, hi=1e5), h.real('oy', lo=-1e6, hi=1e6)]
    south = h.bool('south')

    class Proj:
        def __init__(self, **kw):
            self.kw = kw
            self.srs = 'utm'
            made.append(kw)

    class Transformer:
        @staticmethod
        def from_crs(a, b, **kw):
            ll = cs.LL_WGS84.srs
            assert {a, b} == {'utm', ll}
            return Affine(h, c, inv=a == 'utm')
    with patched((cs, 'pyproj', SimpleNamespace(Proj=Proj, Transformer=Transformer)), *shims(h)):
        s = cs.UTMCoordinateSystem(10, south=south)
        h.prove(made[0].get('zone') == 10 and bool(made[0].get('south')) == south and made[0].get('proj') == 'utm', 'zone and hemisphere')
        x, y = h.real('x', lo=-1e6, hi=1e6), h.real('y', lo=-1e6, hi=1e6)
        tol = 0 if h.symbolic else 1e-4
        lon, lat = s.to_lonlat(x, y)
        h.prove_eq(lon*c[0] + c[1], x, 'to_lonlat is the inverse projection: lon', tol=tol)
        h.prove_eq(lat*c[2] + c[3], y, 'to_lonlat is the inverse projection: lat', tol=tol)
        x2, y2 = s.to_xy(lon, lat)
        h.prove_eq(x2, x, 'and back: x', tol=tol)
        h.prove_eq(y2, y, 'and back: y', tol=tol)
        nan = h.choice('missing', [None, 0, 1])
        xs, ys = [x, h.real('x1', lo=-1e6, hi=1e6)], [y, h.real('y1', lo=-1e6, hi=1e6)]
        if nan is not None:
            if h.bool('in_x'):
                xs[nan] = np.nan
            else:
                ys[nan] = np.nan
        pos = h.bool('positive_lon') if nan is None else False
        lo, la = s.to_lonlat(arr(h, xs), arr(h, ys), positive_lon=pos)
        for i in range(2):
            if i == nan:
                h.prove(np.isnan(lo[i]) and np.isnan(la[i]), 'missing positions stay missing')
                continue
            h.prove_eq(la[i]*c[2] + c[3], ys[i], 'latitude of an array entry', tol=tol)
            if not pos:
                h.prove_eq(lo[i]*c[0] + c[1], xs[i], 'longitude of an array entry', tol=tol)
            else:
                k = (lo[i] - (xs[i] - c[1])/c[0])/360
                if h.symbolic:
                    h.prove(SymBool(z3.And(raw(lo[i]) >= 0, raw(lo[i]) < 360)), 'longitude between 0 and 360')
                    h.prove(k.is_integer(), 'a whole number of turns away')
                else:
                    h.prove(0 <= lo[i] <= 360, 'longitude between 0 and 360')
                    h.prove(abs(k - round(k)) < 1e-6, 'a whole number of turns away')


def rotator(h):
    """the rotator of a projected system uses the projection from longitude and latitude"""
    f = frac if h.symbolic else float
    k = h.real('scale', lo=1, hi=1e5)

    class Turn:
        def __init__(self, s):
            self.s = s

        def transform(self, x, y):
            c, d = f(0.6), f(0.8)*self.s
            m = k if self.s > 0 else 1/k
            return m*(c*x - d*y), m*(d*x + c*y)

    class Transformer:
        @staticmethod
        def from_crs(a, b, **kw):
            return Turn(-1 if a == 'utm' else 1)
    with patched((cs, 'pyproj', SimpleNamespace(Proj=lambda **kw: SimpleNamespace(srs='utm'), Transformer=Transformer)), *shims(h)):
        s = cs.UTMCoordinateSystem(10)
        x, y = h.real('x', lo=-180, hi=180), h.real('y', lo=-80, hi=80)
        vx, vy = h.real('vx', lo=-50, hi=50), h.real('vy', lo=-50, hi=50)
        u, v = s.get_vector_rotator(arr(h, [x]), arr(h, [y]))(arr(h, [vx]), arr(h, [vy]))
        tol = 1e-6
        h.prove_eq(u[0], f(0.6)*vx - f(0.8)*vy, 'vector turned by the angle of the projection: x', tol=tol)
        h.prove_eq(v[0], f(0.8)*vx + f(0.6)*vy, 'vector turned by the angle of the projection: y', tol=tol)


def shapes(h):
    tr = Trans(h, 1)
    k = h.choice('kind', ['one array', 'different shapes'])
    a, b = (np.zeros(2), 1.0) if k == 'one array' else (np.zeros(2), np.zeros(3))
    try:
        cs.proj_transform(a, b, tr)
        r = True
    except AssertionError:
        r = False
    h.prove(not r, 'mismatched coordinates are refused')


def mesh_lonlat(h):
    """mesh coordinates in longitude and latitude"""
    m = fd.UnitSquareMesh(1, 1)
    c = [h.real('sx', lo=1, hi=1e3), h.real('ox', lo=-100, hi=100), h.real('sy', lo=1, hi=1e3), h.real('oy', lo=-100, hi=100)]
    s = object.__new__(cs.UTMCoordinateSystem)
    rec = {}

    class T(Affine):
        def transform(self, x, y):
            rec['in'] = (np.array(x), np.array(y))
            lon, lat = np.arange(len(x))*1.0, 10 + np.arange(len(x))*1.0
            rec['out'] = (lon, lat)
            return lon, lat
    s.transformer_lonlat = T(h, c, True)
    f = s.get_mesh_lonlat_function(m)
    X = m.coordinates.dat.data_ro
    h.prove(np.array_equal(rec['in'][0], X[:, 0]) and np.array_equal(rec['in'][1], X[:, 1]), 'x and y are converted')
    h.prove(np.array_equal(f.dat.data_ro[:, 0], rec['out'][0]) and np.array_equal(f.dat.data_ro[:, 1], rec['out'][1]),
            'longitude first')
    h.prove(f.dat is not m.coordinates.dat and np.array_equal(m.coordinates.dat.data_ro, X), 'the mesh is left alone')
    for bad in (fd.UnitIntervalMesh(2), fd.UnitIcosahedralSphereMesh(0)):
        try:
            s.get_mesh_lonlat_function(bad)
            r = True
        except ValueError:
            r = False
        h.prove(not r, 'other meshes are refused')
    h.prove_le(0, c[0], 'scale')


# ---- time -----------------------------------------------------------------------------------------------------------
def times(h):
    t = h.real('t', lo=-1e9, hi=4e9)
    off = h.int('offset', lo=-30, hi=30)
    pp = [(tz, 'datetime', DT), (tz, 'epoch', Date(0)), (pytz, 'datetime', DT)] if h.symbolic else []
    tol = 0 if h.symbolic else 2e-6
    with patched(*pp):
        d = tz.epoch_to_datetime(t)
        h.prove_eq(tz.datetime_to_epoch(d), t, 'there and back', tol=tol)
        ok = bool((off > -24) & (off < 24)) if h.symbolic else -24 < off < 24
        try:
            z = tz.FixedTimeZone(off, 'ABC')
        except ValueError:
            z = None
        h.prove((z is not None) == ok, 'offsets of a day or more are refused')
        if z is None:
            return
        h.prove_eq(z.utcoffset(None).total_seconds(), 3600*off, 'offset in hours')
        h.prove(z.tzname(None) == 'ABC', 'name')
        w = h.real('wall', lo=0, hi=3e9)
        n = Date(w, None) if h.symbolic else datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=w)
        loc = z.localize(n)
        h.prove_eq(tz.datetime_to_epoch(loc), w - 3600*off, 'a local time is that many hours ahead of UTC', tol=tol)
        h.prove_eq(tz.datetime_to_epoch(tz.epoch_to_datetime(tz.datetime_to_epoch(loc))), w - 3600*off, 'the same instant', tol=tol)
        h.prove_eq((tz.epoch_to_datetime(tz.datetime_to_epoch(loc)) - loc).total_seconds(), 0, 'no shift', tol=tol)


for g in ('matrix', 'rotator'):
    for sc in (True, False) if g == 'matrix' else (False,):
        ck.harness(f'rotate[{g}-{"scalar" if sc else "array"}]', rotate(g, sc))
ck.harness('delta', delta)
ck.harness('utm', utm)
ck.harness('rotator', rotator)
ck.harness('shapes', shapes)
ck.harness('mesh', mesh_lonlat)
ck.harness('time', times)
ck.finish()
