"""C26: surface and boundary forcing conversions"""
from stand import *
import os
from types import SimpleNamespace
import numpy as np
import firedrake as fd
import thetis.forcing as fo
import thetis.interpolation as ip
import thetis.timezone as tz
import uptide
import uptide.tidal_netcdf

ck = Check('C26', 'forcing')
TECHNIQUE = 'symbolic execution of the real conversion and interpolator code on symbolic winds, pressures, levels, times and' \
            ' uninterpreted file data; z3 compares every stored value with the documented formula'
ck.encoded('forcing.compute_wind_stress', 'forcing.AtmosphericForcingInterpolator.*', 'forcing.ERA5Interpolator/TCHazardsInterpolator/'
           'ATMInterpolator.__init__', 'forcing.ATMNetCDFTime.__init__', 'forcing.NCOMInterpolator.*', 'forcing.LiveOceanInterpolator.*',
           'forcing.GenericInterpolator2D.*', 'forcing.SpatialInterpolatorROMS3d._compute_roms_z_coord',
           'forcing.TidalBoundaryForcing.*', 'forcing.TPXOTidalBoundaryForcing/FES2004TidalBoundaryForcing._create_readers')
ck.bound('2-4 nodes, 2-4 levels, wind up to 80 m/s; file readers, time search (C23) and grid interpolation (C24) are uninterpreted'
         ' functions of file, variable, time and node')
ck.assumed('netCDF and uptide readers are stand-ins; the drag formulas are those of the cited publications (with the 1e-3 m/s'
           ' regularisation of the code, worth less than 4e-6 Pa)')
RHO = 1.22


def arr(h, x):
    return np.array(x, dtype=object if h.symbolic else float)


class NP:
    def __getattr__(self, k):
        return getattr(np, k)

    @staticmethod
    def hypot(a, b):
        def one(p, q):
            r = p*p + q*q
            return r.sqrt() if is_sym(r) else math.sqrt(r)
        return np.vectorize(one, otypes=[object])(a, b)

    @staticmethod
    def ones_like(a, **k):
        return np.full(np.shape(a), SymReal(z3.RealVal(1)), dtype=object)

    @staticmethod
    def zeros_like(a, **k):
        return np.full(np.shape(a), 0, dtype=object)

    @staticmethod
    def array(a, **k):
        return np.array(a, dtype=object)


def shims(h):
    return [(fo, 'numpy', NP())] if h.symbolic else []


# ---- wind stress ----------------------------------------------------------------------------------------------------
def drag(f, method, w):
    """coefficient of the publication"""
    if method == 'LargePond1981':
        return f(1.2e-3) if bool(w <= 11) else f(1e-3)*(f(0.49) + f(0.065)*w)
    if method == 'SmithBanke1975':
        return (f(0.63) + f(0.066)*w)/1000
    if bool(w > 33):
        return f(2.34e-3)
    return f(1e-3)*(f(2.7)/(w + f(1e-3)) + f(0.142) + w/f(13.09) - f(3.14807e-10)*w**6)


def stress(method):
    def run(h):
        f = frac if h.symbolic else float
        n = 2
        W = [h.real(f'w{i}', lo=0, hi=80) for i in range(n)]
        C, S = [h.real(f'c{i}', lo=-1, hi=1) for i in range(n)], [h.real(f's{i}', lo=-1, hi=1) for i in range(n)]
        for i in range(n):
            if h.symbolic:
                h.assume_eq(C[i]*C[i] + S[i]*S[i], 1)
            else:
                m = math.hypot(C[i], S[i])
                h.assume(abs(m - 1) < 1e-6)
        u, v = [w*c for w, c in zip(W, C)], [w*c for w, c in zip(W, S)]

        class N2(NP):
            @staticmethod
            def hypot(a, b):
                # |w(c, s)| = w
                out = []
                for p, q in zip(a, b):
                    k = [i for i in range(n) if p is u[i] and q is v[i]]
                    if k:
                        out.append(W[k[0]])
                    else:
                        out.append((p*p + q*q).sqrt())
                return np.array(out, dtype=object)
        rho = float(fo.physical_constants['rho_air'])
        h.prove(1.1 < rho < 1.4, 'density of air')
        pp = [(fo, 'numpy', N2())] if h.symbolic else []
        with patched(*pp):
            tx, ty = fo.compute_wind_stress(arr(h, u), arr(h, v), method=method)
            if method == 'LargeYeager2009':
                t2 = fo.compute_wind_stress(arr(h, u), arr(h, v))
                h.prove_eq(t2[0][0], tx[0], 'default formula')
        for i in range(n):
            w = W[i]
            if not h.symbolic and (abs(w - 11) < 1e-6 or abs(w - 33) < 1e-6):
                return
            m = f(rho)*drag(f, method, w)*w
            h.prove_eq(tx[i], m*u[i], 'stress is density times drag times speed times wind: x', tol=Fr(1, 10**9))
            h.prove_eq(ty[i], m*v[i], 'stress is density times drag times speed times wind: y', tol=Fr(1, 10**9))
            h.prove(drag(f, method, w) >= 0, 'drag is not negative')
    return run


# ---- stand-ins for files ------------------------------------------------------------------------------------------------
class Fld:
    """a field with one value per node (and component)"""
    def __init__(self, h, n, comp=None, space='space', name=''):
        self.dat = SimpleNamespace(data_with_halos=np.full((n,) if comp is None else (n, comp), -77.0, dtype=object))
        self.ufl_shape = () if comp is None else (comp,)
        self.space, self.nm = space, name

    def function_space(self):
        return self.space

    def name(self):
        return self.nm

    @property
    def v(self):
        return self.dat.data_with_halos


def files(h, uf, n, log):
    """interpolation classes whose data are uninterpreted functions of variable, node and time"""
    class Grid:
        def __init__(self, space, cs=None, *a, **kw):
            log['grid'] = (space, cs, a, kw)
            self.mesh_lonlat = arr(h, [[log['lon'][i], log['lat'][i]] for i in range(n)])
            self.latlonz_array = arr(h, [[log['lat'][i], log['lon'][i], -1.0 - i] for i in range(n)])
            self.kind = log.get('grid class', 'g')

    class Grid2(Grid):
        dim = 2

    class Grid3(Grid):
        dim = 3

    class Reader:
        def __init__(self, gi, names):
            self.gi, self.names = gi, names
            log.setdefault('readers', []).append(self)

    class Search:
        def __init__(self, pat, date, *a, **kw):
            self.pat, self.date, self.a, self.kw = pat, date, a, kw
            log.setdefault('search', []).append(self)

    class TI:
        def __init__(self, search, reader):
            self.s, self.r = search, reader

        def __call__(self, t):
            gi = self.r.gi
            return [arr(h, [uf(f'{v}@{self.s.pat}{getattr(gi, "dim", "")}', t, i) for i in range(n)]) for v in self.r.names]
    return Grid, Grid2, Grid3, Reader, Search, TI


class Rot:
    """rotation by an unknown matrix per node"""
    def __init__(self, h, lon, lat, comp=2, name='r'):
        self.h, self.lon, self.lat, self.comp = h, lon, lat, comp
        self.m = [[[h.real(f'{name}{i}{a}{b}', lo=-1, hi=1) for b in range(2)] for a in range(comp)] for i in range(len(lon))]

    def __call__(self, u, v):
        return [arr(self.h, [m[a][0]*p + m[a][1]*q for m, p, q in zip(self.m, u, v)]) for a in range(self.comp)]


class CS:
    def __init__(self, h):
        self.h = h
        self.made = []

    def get_vector_rotator(self, lon, lat):
        r = Rot(self.h, lon, lat)
        self.made.append(r)
        return r

    def to_lonlat(self, *xy, positive_lon=False):
        self.positive = positive_lon
        self.xy = xy
        return self.lon, self.lat


def atmosphere(cls, comp, own):
    names = {'AtmosphericForcingInterpolator': ('u10', 'v10', 'msl', 'valid_time', 1), 'ERA5Interpolator': ('u10', 'v10', 'msl', 'valid_time', 1),
             'TCHazardsInterpolator': ('Uw', 'Vw', 'Pr', 'time', 100), 'ATMInterpolator': ('uwind', 'vwind', 'prmsl', 'time', 1)}[cls]

    def run(h):
        n = 2
        uf = UF(h)
        log = {'lon': [h.real(f'lon{i}') for i in range(n)], 'lat': [h.real(f'lat{i}') for i in range(n)]}
        Grid, G2, G3, Reader, Search, TI = files(h, uf, n, log)
        cs = CS(h)
        tau, pr = Fld(h, n, comp), Fld(h, n)
        rot = Rot(h, log['lon'], log['lat'], comp, 'own') if own else None
        t = h.real('t', lo=0, hi=1e6)
        seen = []

        def cws(a, b, *k, **kw):
            # the formula itself is the subject of the other harness
            seen.append((a, b))
            return (arr(h, [uf('sx', p, q) for p, q in zip(a, b)]), arr(h, [uf('sy', p, q) for p, q in zip(a, b)]))
        fill = h.real('fill')
        with patched((ip, 'NetCDFLatLonInterpolator2d', Grid), (ip, 'NetCDFSpatialInterpolator', Reader),
                     (ip, 'NetCDFTimeSearch', Search), (ip, 'LinearTimeInterpolator', TI), (fo, 'compute_wind_stress', cws), *shims(h)):
            o = getattr(fo, cls)('space', tau, pr, cs, 'files*.nc', 'date', vect_rotator=rot, fill_mode='nearest', fill_value=fill)
            o.set_fields(t)
        s = log['search'][0]
        h.prove(log['grid'][0] == 'space' and log['grid'][1] is cs, 'grid interpolator on the target space')
        h.prove(log['grid'][3].get('fill_mode') == 'nearest', 'fill mode is handed on')
        h.prove_eq(log['grid'][3].get('fill_value'), fill, 'fill value is handed on')
        h.prove(s.date == 'date' and s.pat == 'files*.nc', 'start date and files')
        h.prove(s.kw.get('time_variable_name') == names[3], 'time variable')
        h.prove((s.a[0] if s.a else None) is (fo.ATMNetCDFTime if cls == 'ATMInterpolator' else ip.NetCDFTimeParser), 'time parser')
        R = rot or cs.made[0]
        for i in range(n):
            h.prove_eq(R.lon[i], log['lon'][i], 'rotation at the longitude of the node')
            h.prove_eq(R.lat[i], log['lat'][i], 'rotation at the latitude of the node')
            e, m, p = [uf(f'{k}@files*.nc', t, i) for k in names[:3]]
            sx, sy = uf('sx', e, m), uf('sy', e, m)
            for a in range(comp):
                h.prove_eq(tau.v[i, a], R.m[i][a][0]*sx + R.m[i][a][1]*sy, f'rotated stress of that time and node: {a}', tol=0 if h.symbolic else 1e-9)
            h.prove_eq(pr.v[i], p*names[4], 'pressure in Pascal', tol=0 if h.symbolic else 1e-9)
    return run


def atmtime(h):
    """records beyond the maximum duration of a file are left out"""
    nt = h.choice('records', [2, 3, 4])
    dt = h.real('dt', lo=60, hi=86400)
    t0 = h.real('t0', lo=0, hi=1e9)
    T = [t0 + i*dt for i in range(nt)]
    keep = h.choice('steps', [None, 1, 2, 3, 5])
    frac_ = h.real('part', lo=0.01, hi=0.99)
    mx = None if keep is None else (keep + frac_)*dt

    def init(self, fn, time_variable_name='time', verbose=False):
        self.time_array = arr(h, T)
        self.nb_steps = nt
        log.append((fn, time_variable_name))
    log = []
    pp = [(tz, 'datetime', DT), (tz, 'epoch', Date(0)), (fo, 'float', SFloat), (fo, 'int', SInt)] if h.symbolic else []

    class N3(NP):
        @staticmethod
        def mean(a):
            return sum(a[1:], a[0])/len(a)
    pp += [(fo, 'numpy', N3())] if h.symbolic else []
    with patched((ip.NetCDFTimeParser, '__init__', init), *pp):
        o = fo.ATMNetCDFTime('f.nc', max_duration=mx)
    want = nt if keep is None else min(nt, keep)
    h.prove(len(o.time_array) == want, 'records within the duration are kept')
    h.prove(log == [('f.nc', 'time')], 'file')
    if len(o.time_array) != want:
        return
    for a, b in zip(o.time_array, T):
        h.prove_eq(a, b, 'from the first record on')
    with patched(*pp):
        h.prove_eq(tz.datetime_to_epoch(o.start_time), T[0], 'start', tol=0 if h.symbolic else 1e-5)
        h.prove_eq(tz.datetime_to_epoch(o.end_time), T[want - 1], 'end', tol=0 if h.symbolic else 1e-5)


# ---- ocean models ---------------------------------------------------------------------------------------------------
def ncom(vel):
    def run(h):
        n = 2
        uf = UF(h)
        log = {'lon': [h.real(f'lon{i}') for i in range(n)], 'lat': [h.real(f'lat{i}') for i in range(n)]}
        Grid, G2, G3, Reader, Search, TI = files(h, uf, n, log)
        names = ['Salinity', 'Surface_Elevation'] + (['V_Velocity', 'U_Velocity'] if vel else [])
        fs = ['s3d', 'ssh'] + (['v3d', 'u3d'] if vel else [])
        F = [Fld(h, n, None, 's2' if f == 'ssh' else 's3', k) for k, f in zip(names, fs)]
        cs = CS(h)
        t = h.real('t', lo=0, hi=1e6)
        with patched((fo, 'SpatialInterpolatorNCOM2d', G2), (fo, 'SpatialInterpolatorNCOM3d', G3), (ip, 'NetCDFSpatialInterpolator', Reader),
                     (ip, 'DailyFileTimeSearch', Search), (ip, 'LinearTimeInterpolator', TI), *shims(h)):
            o = fo.NCOMInterpolator('s2', 's3', F, names, fs, cs, '/base', '{year:04d}/{fieldstr:}.{year:04d}.nc', 'date')
            o.set_fields(t)
        h.prove(all(s.date == 'date' for s in log['search']), 'start date')
        val = lambda k, f, i: uf(f'{k}@/base/{{year:04d}}/{f}.{{year:04d}}.nc{2 if f == "ssh" else 3}', t, i)
        for i in range(n):
            for k, f, q in zip(names, fs, F):
                if 'Velocity' in k:
                    continue
                h.prove_eq(q.v[i], val(k, f, i), f'{k}: from its own file and grid')
            if vel:
                R = cs.made[0]
                h.prove_eq(R.lon[i], log['lon'][i], 'rotation at the longitude of the node')
                h.prove_eq(R.lat[i], log['lat'][i], 'rotation at the latitude of the node')
                e, m = val('U_Velocity', 'u3d', i), val('V_Velocity', 'v3d', i)
                h.prove_eq(F[3].v[i], R.m[i][0][0]*e + R.m[i][0][1]*m, 'rotated velocity: u', tol=0 if h.symbolic else 1e-9)
                h.prove_eq(F[2].v[i], R.m[i][1][0]*e + R.m[i][1][1]*m, 'rotated velocity: v', tol=0 if h.symbolic else 1e-9)
    return run


def liveocean(h):
    n = 2
    uf = UF(h)
    SP = SimpleNamespace(name='space')
    log = {'lon': [0.0]*n, 'lat': [0.0]*n}
    Grid, G2, G3, Reader, Search, TI = files(h, uf, n, log)
    F = [Fld(h, n, None, SP, k) for k in 'ab']
    t = h.real('t', lo=0, hi=1e6)
    with patched((fo, 'SpatialInterpolatorROMS3d', Grid), (ip, 'NetCDFSpatialInterpolator', Reader), (ip, 'NetCDFTimeSearch', Search),
                 (ip, 'LinearTimeInterpolator', TI), *shims(h)):
        o = fo.LiveOceanInterpolator(SP, F, ['salt', 'temp'], 'f*.nc', 'date', 'cs')
        o.set_fields(t)
        try:
            fo.LiveOceanInterpolator(SP, [Fld(h, n, None, 'other', 'c')], ['salt'], 'f*.nc', 'date', 'cs')
            r = True
        except AssertionError:
            r = False
    h.prove(not r, 'fields of another space are refused')
    h.prove(log['search'][0].kw.get('time_variable_name') == 'ocean_time' and log['search'][0].date == 'date', 'time variable and date')
    for i in range(n):
        for k, q in zip(('salt', 'temp'), F):
            h.prove_eq(q.v[i], uf(f'{k}@f*.nc', t, i), f'{k} of that time and node')


def generic(vec, comp=2):
    def run(h):
        n = 2
        uf = UF(h)
        log = {'lon': [h.real(f'lon{i}') for i in range(n)], 'lat': [h.real(f'lat{i}') for i in range(n)]}
        Grid, G2, G3, Reader, Search, TI = files(h, uf, n, log)
        F = [Fld(h, n, None, 'space', k) for k in 'ab']
        V = Fld(h, n, comp) if vec else None
        cs = CS(h)
        own = Rot(h, log['lon'], log['lat'], comp, 'own') if comp == 3 else None
        t = h.real('t', lo=0, hi=1e6)
        given = ['zeta', 'depth']
        kw = dict(vector_field=V, vector_components=['east', 'north'], vector_rotator=own) if vec else {}
        with patched((fo, 'GenericSpatialInterpolator2D', Grid), (ip, 'NetCDFSpatialInterpolator', Reader), (ip, 'NetCDFTimeSearch', Search),
                     (ip, 'LinearTimeInterpolator', TI), *shims(h)):
            o = fo.GenericInterpolator2D('space', F, given, 'f*.nc', 'date', cs, **kw)
            o.set_fields(t)
        h.prove(given == ['zeta', 'depth'], "the caller's list is left alone")
        h.prove(log['search'][0].kw.get('time_variable_name') == 'time' and log['search'][0].date == 'date', 'time variable and date')
        for i in range(n):
            for k, q in zip(('zeta', 'depth'), F):
                h.prove_eq(q.v[i], uf(f'{k}@f*.nc', t, i), f'{k} of that time and node')
            if vec:
                R = own or cs.made[0]
                h.prove_eq(R.lon[i], log['lon'][i], 'rotation at the longitude of the node')
                h.prove_eq(R.lat[i], log['lat'][i], 'rotation at the latitude of the node')
                e, m = uf('east@f*.nc', t, i), uf('north@f*.nc', t, i)
                for a in range(comp):
                    h.prove_eq(V.v[i, a], R.m[i][a][0]*e + R.m[i][a][1]*m, f'rotated vector: {a}', tol=0 if h.symbolic else 1e-9)
    return run


class Filled(np.ndarray):
    """array without masked entries"""
    def filled(self, v=None):
        return np.array(self)


class MinMax(np.ndarray):
    def min(self):
        return smin_all(self, lambda a, b: a < b)

    def max(self):
        return smin_all(self, lambda a, b: a > b)


def smin_all(a, lt):
    r = a[0]
    for q in a[1:]:
        r = SymReal(z3.If(raw_bool(lt(q, r)), raw(q), raw(r)))
    return r


def roms(const):
    """levels: bottom at the bed, top at the free surface, in between the middle of the layers, increasing"""
    def run(h):
        nz, nn = 3, 2
        hc = h.real('hc', gt=0, hi=500)
        s = [-1, h.real('s1', lo=-1, hi=0), h.real('s2', lo=-1, hi=0), 0]
        C = [-1, h.real('C1', lo=-1, hi=0), h.real('C2', lo=-1, hi=0), 0]
        h.assume(s[1] > -1)
        h.assume(s[2] < 0)
        h.assume(s[2] > s[1])
        h.assume(C[1] > -1)
        h.assume(C[2] < 0)
        h.assume(C[2] > C[1])
        B = [[h.real(f'h{j}{i}', lo=1, hi=5000) for i in range(2)] for j in range(2)]
        Z = [[h.real(f'z{j}{i}', lo=-0.9, hi=10) for i in range(2)] for j in range(2)]
        zc = h.real('level', lo=-0.9, hi=10)
        h.assume(zc > 0.01)
        H = object.__new__(fo.SpatialInterpolatorROMS3d)
        # nodes of the subset in arbitrary order, the second of three being land
        H.ind_lat, H.ind_lon, H.mask = np.array([1, 0, 0]), np.array([0, 0, 1]), np.array([True, False, True])
        use = [(1, 0), (0, 1)]
        o = arr(h, Z)
        old = arr(h, [[99, 99], [99, 99]])
        msk = (lambda a: np.array(a, dtype=object).view(Filled)) if h.symbolic else np.ma.array
        nc = {'zeta': msk([o, old]), 'h': msk(arr(h, B)), 'Cs_w': arr(h, C), 's_w': arr(h, s), 'hc': arr(h, [hc])[0]}

        class V:
            def __init__(self, a):
                self.a = a

            def __getitem__(self, k):
                return self.a if isinstance(k, slice) and np.ndim(self.a) == 0 else self.a[k]
        with patched(*shims(h)):
            g = H._compute_roms_z_coord({k: V(v) for k, v in nc.items()}, constant_zeta=zc if const else None)
        h.prove(g.shape == (nz, nn), 'one level per layer, one column per wet node')
        for k, (j, i) in enumerate(use):
            b, z = B[j][i], zc if const else Z[j][i]
            lev = [z + (z + b)*((hc*p + b*c)/(hc + b)) for p, c in zip(s, C)]
            t = 0 if h.symbolic else 1e-6
            h.prove_eq(g[0, k], -b, 'lowest level at the bed', tol=t)
            h.prove_eq(g[-1, k], z, 'highest level at the surface', tol=t)
            h.prove_eq(g[1, k], (lev[1] + lev[2])/2, 'middle of the layer', tol=t)
            h.prove(g[1, k] > g[0, k], 'levels increase from the bed')
            h.prove(g[2, k] > g[1, k], 'levels increase to the surface')
    return run


# ---- tides ----------------------------------------------------------------------------------------------------------
_m = {}


def tides(layout, where, vel, own=False):
    """elevation and rotated velocity at the nodes of the boundary; nodes without data are set to zero; others are left alone"""
    def run(h):
        if 'm' not in _m:
            _m['m'] = fd.UnitSquareMesh(1, 1)
            _m['V'] = fd.FunctionSpace(_m['m'], 'CG', 1)
        V = _m['V']
        n = 4
        bn = {'all': [0, 1, 2, 3], 'one': None, 'none': []}[where]
        if where == 'one':
            bn = sorted(int(i) for i in fd.DirichletBC(V, 0., [1]).nodes)
            h.prove(len(bn) == 2, 'two nodes on that boundary')
        elev = Fld(h, n, None, V)
        uv = Fld(h, n, 2) if vel else None
        before = [[h.real(f'old{i}{a}') for a in range(3)] for i in range(n)]
        for i in range(n):
            elev.v[i] = before[i][0]
            if vel:
                uv.v[i, 0], uv.v[i, 1] = before[i][1:]
        cs = CS(h)
        lon, lat = [h.real(f'lon{i}', lo=0, hi=360) for i in range(n)], [h.real(f'lat{i}', lo=-90, hi=90) for i in range(n)]
        cs.lon, cs.lat = arr(h, lon), arr(h, lat)
        uf = UF(h)
        gap = {c: h.choice(f'gap {c}', [None, bn[0]]) if bn and c in ('e', 'u', 'v') and (c == 'e' or vel) else None for c in 'euv'}
        times = {}
        log = {}

        class Reader:
            def __init__(self, name):
                self.name = name

            def set_time(self, t):
                times[self.name] = t

            def get_val(self, p, allow_extrapolation=False):
                q = gap[self.name]
                if q is not None:
                    same = (p[0] == log['pt'](q)[0]) & (p[1] == log['pt'](q)[1]) if h.symbolic else \
                        p[0] == log['pt'](q)[0] and p[1] == log['pt'](q)[1]
                    if bool(same):
                        raise uptide.netcdf_reader.CoordinateError('no data', p, 0, 0)
                return uf(self.name, p[0], p[1], times.get(self.name, -1))
        log['pt'] = lambda i: (lon[i], lat[i]) if layout == 'lon,lat' else (lat[i], lon[i])
        # distinct places
        for i in range(n):
            for j in range(i):
                h.assume(lon[i] != lon[j])

        class F(fo.TidalBoundaryForcing):
            coord_layout = layout
            compute_velocity = vel

            def _create_readers(self):
                log['ranges'] = self.ranges
                self.tnci, self.tnciu, self.tnciv = Reader('e'), Reader('u'), Reader('v')
        date = datetime.datetime(2020, 1, 2, tzinfo=datetime.timezone.utc)
        tide = {}

        class T:
            def __init__(self, c):
                tide['c'] = c

            def set_initial_time(self, d):
                tide['d'] = d
        rot = Rot(h, lon, lat, 2, 'own') if own else None
        t = h.real('t', lo=0, hi=1e6)

        class N4(NP):
            @staticmethod
            def arange(k):
                return np.arange(k)

            @staticmethod
            def array(a, **k):
                return np.array(a, dtype=object).view(MinMax)
        pp = [(fo, 'numpy', N4())] if h.symbolic else []
        with patched((uptide, 'Tides', T), *pp):
            o = F(elev, date, cs, uv_field=uv, vect_rotator=rot, constituents=['M2'], boundary_ids=None if where == 'all' else [1])
            if where == 'none':
                o._empty_set = True
            o.set_tidal_field(t)
        h.prove(cs.positive is True, 'positive longitudes')
        h.prove(tide.get('c') == ['M2'] and tide.get('d') == date, 'constituents and initial time')
        if where != 'none':
            b = log['ranges'] if layout == 'lon,lat' else log['ranges'][::-1]
            for i in range(n):
                h.prove((b[0][0] <= lon[i]) & (b[0][1] >= lon[i]) if h.symbolic else b[0][0] <= lon[i] <= b[0][1], 'longitude range')
                h.prove((b[1][0] <= lat[i]) & (b[1][1] >= lat[i]) if h.symbolic else b[1][0] <= lat[i] <= b[1][1], 'latitude range')
        tol = 0 if h.symbolic else 1e-9
        for i in range(n):
            p = log['pt'](i)
            if i not in bn:
                h.prove_eq(elev.v[i], before[i][0], 'elevation elsewhere is left alone')
                if vel:
                    h.prove_eq(uv.v[i, 0], before[i][1], 'velocity elsewhere is left alone: u')
                    h.prove_eq(uv.v[i, 1], before[i][2], 'velocity elsewhere is left alone: v')
                continue
            h.prove_eq(elev.v[i], 0 if gap['e'] == i else uf('e', p[0], p[1], t), 'elevation at that place and time')
            if not vel:
                continue
            R = rot or cs.made[0]
            h.prove_eq(R.lon[i], lon[i], 'rotation at the longitude of the node')
            h.prove_eq(R.lat[i], lat[i], 'rotation at the latitude of the node')
            if i in (gap['u'], gap['v']):
                e = m = 0
            else:
                e, m = uf('u', p[0], p[1], t), uf('v', p[0], p[1], t)
            h.prove_eq(uv.v[i, 0], R.m[i][0][0]*e + R.m[i][0][1]*m, 'rotated velocity: u', tol=tol)
            h.prove_eq(uv.v[i, 1], R.m[i][1][0]*e + R.m[i][1][1]*m, 'rotated velocity: v', tol=tol)
    return run


def readers(h):
    """files and components of the tidal models"""
    calls = []

    def rec(kind):
        def f(*a, **k):
            calls.append((kind, a, k))
            return kind, a
        return f
    uv = h.bool('uv')
    H = object.__new__(fo.TPXOTidalBoundaryForcing)
    H.data_dir, H.elev_nc_file, H.uv_nc_file, H.grid_nc_file, H.tide, H.ranges = 'd', 'e.nc', 'u.nc', 'g.nc', 'tide', 'ranges'
    H.uv_field = object() if uv else None
    miss = h.choice('missing', [None, 'e.nc', 'g.nc', 'u.nc'])
    with patched((uptide.tidal_netcdf, 'OTPSncTidalInterpolator', rec('e')), (uptide.tidal_netcdf, 'OTPSncTidalComponentInterpolator', rec('c')),
                 (uptide.tidal_netcdf, 'FESTidalInterpolator', rec('f')),
                 (fo, 'os', SimpleNamespace(path=SimpleNamespace(join=os.path.join, exists=lambda p: miss is None or not p.endswith(miss))))):
        try:
            H._create_readers()
            ok = True
        except AssertionError:
            ok = False
        bad = miss in ('e.nc', 'g.nc') or miss == 'u.nc' and uv
        h.prove(ok == (not bad), 'missing files are reported')
        if ok:
            h.prove(H.tnci == ('e', ('tide', 'd/g.nc', 'd/e.nc')), 'elevation')
            h.prove(hasattr(H, 'tnciu') == uv, 'velocity only on demand')
            if uv:
                h.prove(H.tnciu == ('c', ('tide', 'd/g.nc', 'd/u.nc', 'u', 'u')), 'u component')
                h.prove(H.tnciv == ('c', ('tide', 'd/g.nc', 'd/u.nc', 'v', 'v')), 'v component')
            h.prove(all(c[2] == {'ranges': 'ranges'} for c in calls), 'ranges')
    x = h.real('x')
    h.prove_eq(x, x, 'reached')


for m in ('LargePond1981', 'SmithBanke1975', 'LargeYeager2009'):
    ck.harness(f'stress[{m}]', stress(m))
for c in ('AtmosphericForcingInterpolator', 'ERA5Interpolator', 'TCHazardsInterpolator', 'ATMInterpolator'):
    ck.harness(f'atmosphere[{c}]', atmosphere(c, 2, False))
    ck.harness(f'atmosphere[{c}-3d]', atmosphere(c, 3, True))
ck.harness('atmospheric times', atmtime)
for v in (True, False):
    ck.harness(f'ncom[{"velocity" if v else "scalar"}]', ncom(v))
ck.harness('liveocean', liveocean)
for v, c in ((False, 2), (True, 2), (True, 3)):
    ck.harness(f'generic[{"vector" if v else "scalar"}{c}]', generic(v, c))
for c in (True, False):
    ck.harness(f'roms[{"constant" if c else "file"}]', roms(c))
for l in ('lon,lat', 'lat,lon'):
    for w in ('all', 'one', 'none'):
        for v in (True, False):
            ck.harness(f'tides[{l}-{w}-{"uv" if v else "elev"}]', tides(l, w, v))
ck.harness('tides[own rotator]', tides('lon,lat', 'one', True, True))
ck.harness('readers', readers)
ck.finish()
