"""C23: record search and linear interpolation in time"""
from stand import *
import itertools
import os
import shutil
import tempfile
from types import SimpleNamespace
import numpy as np
import pytz
import netCDF4
import thetis.interpolation as ip
import thetis.timezone as tz

ck = Check('C23', 'time interpolation')
TECHNIQUE = 'symbolic execution of the real file search, time parser, reader and interpolator on symbolic record times, values' \
            ' and requests; numpy.searchsorted and the record choice branch on z3 decisions'
ck.encoded('interpolation.NetCDFTimeParser.__init__/find_time_stamp', 'interpolation.NetCDFTimeSearch.__init__/find',
           'interpolation.DailyFileTimeSearch.*', 'interpolation.LinearTimeInterpolator.__call__/_get_from_cache/_clean_cache',
           'interpolation.NetCDFTimeSeriesReader.*', 'interpolation.NetCDFTimeSeriesInterpolator.*',
           'timezone.datetime_to_epoch/epoch_to_datetime')
ck.bound('up to 3 files of 1-3 records in every listing order; records at least 1 s apart, otherwise arbitrary; up to 2'
         ' (thorough 3) consecutive requests at arbitrary times', 'daily files: 4 files with a gap, any request')
ck.assumed('NetCDF files, glob and calendar arithmetic are stand-ins; record times in chronological order within a file,'
           ' files do not overlap', 'requests less than 2e-4 s before a record (rounding of dates, 1e-6 s search tolerance) are left out')
TOL = Fr(1, 10**6)
BAND = Fr(1, 10**4)         # date arithmetic is rounded to microseconds


class NP:
    def __getattr__(self, k):
        return getattr(np, k)

    @staticmethod
    def mean(a, *x, **k):
        return np.mean(a, *x, **k) if len(a) else float('nan')


class Var:
    def __init__(self, a, dims, **at):
        self.a, self.dimensions, self.at = np.array(a, dtype=object), dims, at
        self.__dict__.update(at)
        self.shape = self.a.shape

    def ncattrs(self):
        return list(self.at)

    def __getitem__(self, k):
        if isinstance(k, list):
            k = tuple(k)
        r = self.a[k]
        return r.copy() if isinstance(r, np.ndarray) else r


class Data:
    def __init__(self, disk):
        self.disk = disk

    def __call__(self, fn, mode='r'):
        d = SimpleNamespace(variables=self.disk[fn])
        v = self.disk[fn]

        class D:
            variables = v
            dimensions = {n: None for q in v.values() for n in q.dimensions}

            def __getitem__(self, k):
                return v[k]

            def __enter__(self):
                return self

            def __exit__(self, *a):
                pass

            def filepath(self):
                return fn
        return D()


class World:
    """files = list of lists of record times (epoch seconds), vals[file][record] -> list of arrays for variables"""
    def __init__(self, h, files, vals, order, shape=0):
        self.h = h
        self.dir = None
        names = [f'f{i}.nc' for i in range(len(files))]
        dims = {0: ('time',), 1: ('time', 'x'), 2: ('x', 'time')}[shape]
        var = [f'v{j}' for j in range(len(vals[0][0]))]
        self.vars = var

        def layout(i, j):
            a = np.array([v[j] for v in vals[i]], dtype=object)
            return a.T if shape == 2 else a
        if h.symbolic:
            self.names = names
            disk = {}
            for i, n in enumerate(names):
                disk[n] = {'time': Var(files[i], ('time',), units='seconds since 1970-01-01', calendar='gregorian')}
                for j, v in enumerate(var):
                    disk[n][v] = Var(layout(i, j), dims)
            nc = SimpleNamespace(Dataset=Data(disk))
            self.pp = [(ip, 'netCDF4', nc), (ip, 'numpy', NP()), (ip, 'float', SFloat), (ip, 'datetime', DT), (tz, 'datetime', DT),
                       (tz, 'epoch', Date(0)), (ip, 'cftime', SimpleNamespace(num2pydate=lambda t, u, c: Date(t, None))),
                       (ip, 'os', SimpleNamespace(path=SimpleNamespace(isfile=lambda f: f in disk)))]
            # the timezone functions are imported by name: they keep their own module globals
        else:
            self.dir = tempfile.mkdtemp()
            self.names = [os.path.join(self.dir, n) for n in names]
            for i, n in enumerate(self.names):
                with netCDF4.Dataset(n, 'w') as d:
                    d.createDimension('time', None)
                    d.createDimension('x', 2)
                    tv = d.createVariable('time', 'f8', ('time',))
                    tv.units, tv.calendar = 'seconds since 1970-01-01', 'gregorian'
                    tv[:] = [float(t) for t in files[i]]
                    for j, v in enumerate(var):
                        q = d.createVariable(v, 'f8', dims)
                        q[:] = np.array(layout(i, j), dtype=float)
            self.pp = [(ip, 'print_output', lambda *a: None)]
        self.order = [self.names[i] for i in order]
        self.pp.append((ip, 'glob', SimpleNamespace(glob=lambda p: list(self.order))))

    def __enter__(self):
        self.c = patched(*self.pp)
        self.c.__enter__()
        return self

    def __exit__(self, *a):
        self.c.__exit__(*a)
        if self.dir:
            shutil.rmtree(self.dir)


def records(h, counts, t0):
    out, t = [], t0
    for i, n in enumerate(counts):
        f = []
        for j in range(n):
            t = t + h.real(f'gap{i}_{j}', lo=1, hi=1e6)
            f.append(t)
        out.append(f)
    return out


def start(h):
    """simulation start and the first record; whole seconds survive the datetime conversion of a concrete run"""
    t0 = h.real('t0', lo=0, hi=1e6)
    sim = h.real('sim_start', lo=0, hi=1e6)
    return t0, sim


def date(h, s):
    return Date(s) if h.symbolic else tz.epoch + datetime.timedelta(seconds=float(s))


def num(h, x):
    return x if h.symbolic else float(x)


def interp(counts, nreq, shape=0, nvar=1, scal=False, kind='any'):
    def run(h):
        t0, sim = start(h)
        files = records(h, counts, t0)
        comp = 1 if shape == 0 else 2
        vals = [[[(lambda q: q[0] if shape == 0 else q)([h.real(f'val{i}_{j}_{k}_{c}', lo=-100, hi=100) for c in range(comp)])
                  for k in range(nvar)] for j in range(n)] for i, n in enumerate(counts)]
        order = h.choice('order', list(itertools.permutations(range(len(counts)))))
        sc = [h.real(f'scale{k}', lo=-5, hi=5) for k in range(nvar)] if scal else None
        times = [t for f in files for t in f]
        flat = [v for f in vals for v in f]
        with World(h, files, vals, order, shape) as w:
            o = ip.NetCDFTimeSeriesInterpolator('pat*', w.vars, date(h, sim), scalars=sc)
            for r in range(nreq):
                t = h.real(f'request{r}', lo=-3e6, hi=6e6)
                te = t + sim                                       # epoch time of the request
                # keep requests away from the tolerance band around each record
                band = any([bool((te > q - 2*BAND) & (te < q)) if h.symbolic else abs(te - q) < 1e-4 and te < q for q in times]) \
                    if kind == 'any' else False
                if band:
                    h.assume(False)
                k = None
                for i in range(len(times) - 1):
                    if bool(te >= times[i]) and bool(te < times[i + 1]):
                        k = i
                try:
                    got = o(num(h, t))
                except Exception as e:
                    if isinstance(e, (Unsupported, ReplayViolation)) or type(e).__name__ in (
                            'ZeroDivisionError', 'TypeError', 'AttributeError', 'NameError', 'UnboundLocalError', 'KeyError'):
                        raise
                    got = None
                if k is None:
                    h.prove(got is None, 'a request outside the data is refused')
                    continue
                h.prove(got is not None, 'a request within the data is answered')
                if got is None:
                    continue
                h.prove(len(got) == nvar, 'one value per variable')
                for j in range(nvar):
                    a = (te - times[k])/(times[k + 1] - times[k])
                    p, n = np.array(flat[k][j], dtype=object), np.array(flat[k + 1][j], dtype=object)
                    want = p + a*(n - p)
                    if sc:
                        want = want*sc[j]
                    g = got[j]
                    if shape and np.ndim(g) > 1:
                        g = np.asarray(g).ravel()
                    h.prove_eq(g, want, 'linear between the bracketing records', tol=0 if h.symbolic else 1e-3)
    return run


def search(counts):
    """find: consecutive records that bracket the request"""
    def run(h):
        t0, sim = start(h)
        files = records(h, counts, t0)
        vals = [[[0.0] for j in range(n)] for n in counts]
        order = h.choice('order', list(itertools.permutations(range(len(counts)))))
        times = [(i, j, t) for i, f in enumerate(files) for j, t in enumerate(f)]
        t = h.real('request', lo=-3e6, hi=6e6)
        te = t + sim
        with World(h, files, vals, order) as w:
            s = ip.NetCDFTimeSearch('pat*', date(h, sim), ip.NetCDFTimeParser)
            for prev in (True, False):
                try:
                    fn, ix, tt = s.find(num(h, t), previous=prev)
                except Exception as e:
                    if isinstance(e, Unsupported) or type(e) is not Exception:
                        raise
                    fn = None
                lim = 2*BAND if h.symbolic else 1e-4
                if prev:
                    c = [q for q in times if bool(q[2] <= te)]
                    ok = c[-1] if c else None
                    if not c and any(bool((q[2] - lim < te)) for q in times[:1]):
                        continue                                    # within the tolerance of the first record
                    if ok is not None and any(bool((q[2] - lim < te)) for q in times[len(c):len(c) + 1]):
                        continue
                else:
                    if any(bool((te < q[2]) & (q[2] - lim < te)) if h.symbolic else abs(te - q[2]) < lim for q in times):
                        continue
                    c = [q for q in times if bool(q[2] > te)]
                    ok = c[0] if c else None
                nm = 'previous' if prev else 'next'
                h.prove((fn is None) == (ok is None), f'{nm}: found if there is one')
                if fn is None or ok is None:
                    continue
                h.prove(str(fn) == w.names[ok[0]] and int(ix) == ok[1], f'{nm}: the closest record')
                h.prove_eq(tt, ok[2] - sim, f'{nm}: its time', tol=0 if h.symbolic else 1e-3)
    return run


def parser(h):
    t0, _ = start(h)
    files = records(h, [3], t0)
    t = h.real('request', lo=-3e6, hi=6e6)
    prev = h.bool('previous')
    asdate = h.bool('as_date')
    with World(h, files, [[[0.0]]*3], [0]) as w:
        p = ip.NetCDFTimeParser(w.names[0])
        h.prove_eq(tz.datetime_to_epoch(p.get_start_time()), files[0][0], 'start time', tol=0 if h.symbolic else 1e-3)
        h.prove_eq(tz.datetime_to_epoch(p.get_end_time()), files[0][-1], 'end time', tol=0 if h.symbolic else 1e-3)
        h.prove_eq(p.time_step, (files[0][2] - files[0][0])/2, 'mean time step', tol=0 if h.symbolic else 1e-3)
        if any(bool((t < q) & (t > q - 2*BAND)) if h.symbolic else abs(t - q) < 1e-4 for q in files[0]):
            h.assume(False)
        try:
            # isinstance(t, datetime) decides: give the stand-in class the same role
            i = p.find_time_stamp((Stamp(t) if h.symbolic else tz.epoch + datetime.timedelta(seconds=t)) if asdate else t,
                                  previous=prev)
        except IndexError:
            i = None
        n = sum(1 for q in files[0] if bool(q <= t))
        want = n - 1 if prev else n
        want = None if want < 0 or want > 2 else want
        h.prove((i is None) == (want is None) and (i is None or int(i) == want), 'record index, IndexError out of range')


class Stamp(Date, DT.datetime):
    pass


def gaps(h):
    """documented: an error unless the records of a file are equally spaced (allow_gaps=False is the default)"""
    t0, _ = start(h)
    d1, d2 = h.real('d1', lo=1, hi=1e4), h.real('d2', lo=1, hi=1e4)
    h.assume(d2 >= 2*d1)
    files = [[t0, t0 + d1, t0 + d1 + d2]]
    with World(h, files, [[[0.0]]*3], [0]) as w:
        try:
            ip.NetCDFTimeParser(w.names[0], allow_gaps=False)
            r = True
        except Exception as e:
            if isinstance(e, Unsupported):
                raise
            r = False
    h.prove(not r, 'a varying time step is refused unless gaps are allowed')


PAT = {'plain': 'd/{year:04d}{month:02d}{day:02d}.nc', 'repeated': 'd/{year:04d}/x_{year:04d}-{month:02d}-{day:02d}.nc',
       'reversed': 'd/{day:02d}.{month:02d}.{year:04d}.nc'}


def daily(pat):
    def run(h):
        days = [datetime.date(2015, 12, 30), datetime.date(2015, 12, 31), datetime.date(2016, 1, 1), datetime.date(2016, 1, 4)]
        hour = h.choice('hour', [0, 12])
        zone = h.choice('zone', [0, -8])
        order = h.choice('order', [(0, 1, 2, 3), (3, 1, 2, 0), (2, 3, 0, 1)])
        f = [PAT[pat].format(year=d.year, month=d.month, day=d.day) for d in days]
        ctz = pytz.utc if zone == 0 else tz.FixedTimeZone(zone, 'X')
        init = datetime.datetime(2015, 12, 31, 6, tzinfo=pytz.utc)
        t = h.real('request', lo=-4e5, hi=8e5)
        times = [(datetime.datetime(d.year, d.month, d.day, hour, tzinfo=pytz.utc) - init).total_seconds() - zone*3600
                 for d in days]
        seen = []
        with patched((ip, 'glob', SimpleNamespace(glob=lambda p: (seen.append(p), [f[i] for i in order])[1]))):
            s = ip.DailyFileTimeSearch(PAT[pat], init, center_hour=hour, center_timezone=ctz)
        h.prove(seen[0] == PAT[pat].replace('{year:04d}', '*').replace('{month:02d}', '*').replace('{day:02d}', '*'),
                'files of any date are listed')
        if h.symbolic:
            s.simulation_time_to_datetime = lambda q: 'date'
        vals = {}

        class Reader:
            def __call__(self, fn, ix):
                h.prove(int(ix) == 0, 'one record per file')
                if fn not in vals:
                    vals[fn] = h.real('val' + str(f.index(str(fn))), lo=-100, hi=100)
                return [vals[fn]]
        li = ip.LinearTimeInterpolator(s, Reader())
        if any(bool((t < q) & (t > q - 2*TOL)) if h.symbolic else 0 < q - t < 1.9e-6 for q in times):
            h.assume(False)
        n = sum(1 for q in times if bool(t >= q))
        for prev in (True, False):
            want = n - 1 if prev else n
            want = want if 0 <= want < 4 else None
            try:
                r = s.find(t, previous=prev)
            except AssertionError:
                r = None
            h.prove((r is None) == (want is None), 'refused exactly when there is no such file')
            if r is not None and want is not None:
                h.prove(str(r[0]) == f[want] and r[1] == 0, 'the closest file')
                h.prove_eq(r[2], frac(times[want]) if h.symbolic else times[want], 'its time')
        if 0 < n < 4:
            got = li(t)[0]
            a = (t - times[n - 1])/(times[n] - times[n - 1])
            h.prove_eq(got, (1 - a)*vals[f[n - 1]] + a*vals[f[n]], 'linear between the days', tol=0 if h.symbolic else 1e-6)
    return run


def cache(nreq):
    """any sequence of requests: the answer does not depend on earlier requests"""
    def run(h):
        times = []
        t = h.real('t0', lo=0, hi=100)
        for i in range(4):
            times.append(t)
            t = t + h.real(f'gap{i}', lo=1, hi=100)
        vals = [h.real(f'val{i}', lo=-10, hi=10) for i in range(4)]
        reads = []

        class Search:
            def find(self, t, previous=False):
                n = sum(1 for q in times if bool(t >= q))
                i = n - 1 if previous else n
                return ('file' + str(i // 2), i % 2, times[i])

        class Reader:
            def __call__(self, fn, ix):
                reads.append((fn, ix))
                return [np.array([vals[2*int(fn[4:]) + ix]], dtype=object if h.symbolic else float)]
        li = ip.LinearTimeInterpolator(Search(), Reader())
        last = None
        for r in range(nreq):
            t = h.real(f'request{r}')
            h.assume((t >= times[0]) & (t < times[3]) if h.symbolic else times[0] <= t < times[3])
            n = sum(1 for q in times if bool(t >= q))
            del reads[:]
            got = li(t)[0]
            a = (t - times[n - 1])/(times[n] - times[n - 1])
            h.prove_eq(got[0], (1 - a)*vals[n - 1] + a*vals[n], 'the value of the interval', tol=0 if h.symbolic else 1e-9)
            if last == n:
                h.prove(not reads, 'the data of the interval are kept')
            last = n
            got[0] = got[0]*7                                       # the caller may change what it was given
    return run


def bracket(h):
    """records that do not bracket the request are refused"""
    a, g, t = h.real('t_prev', lo=-1e3, hi=1e3), h.real('gap', lo=1, hi=1e3), h.real('request', lo=-1e4, hi=1e4)
    v = [h.real('v0', lo=-9, hi=9), h.real('v1', lo=-9, hi=9)]

    class Search:
        def find(self, t, previous=False):
            return ('f', 0, a) if previous else ('f', 1, a + g)
    li = ip.LinearTimeInterpolator(Search(), lambda fn, ix: [v[ix]])
    inside = bool((t >= a) & (t <= a + g)) if h.symbolic else a <= t <= a + g
    far = bool((t < a - g/1000) | (t > a + g + g/1000)) if h.symbolic else t < a - g/1001 or t > a + g + g/1001
    try:
        r = li(t)
    except AssertionError:
        r = None
    if inside:
        h.prove(r is not None, 'accepted between the records')
        h.prove_eq(r[0]*g, (a + g - t)*v[0] + (t - a)*v[1], 'interpolated', tol=0 if h.symbolic else 1e-6)
    elif far:
        h.prove(r is None, 'refused outside')


ck.harness('bracket', bracket)
for c in [(2,), (3,), (1, 1), (2, 2), (1, 2), (2, 1)] + ([(1, 1, 1), (2, 1, 2)] if ck.thorough else [(1, 1, 1)]):
    ck.harness(f'find[{c}]', search(c), max_paths=4000)
ck.harness('parser', parser)
ck.harness('interpolate[2,2]', interp((2, 2), 1))
ck.harness('interpolate[1,2] twice', interp((1, 2), 2), max_paths=4000)
if ck.thorough:
    ck.harness('interpolate[2,2] three', interp((2, 2), 3), max_paths=20000)
    ck.harness('interpolate[1,1,2] twice', interp((1, 1, 2), 2), max_paths=20000)
ck.harness('interpolate[two variables, scaled]', interp((2, 1), 2, nvar=2, scal=True))
ck.harness('interpolate[profile, time first]', interp((3,), 1, shape=1))
ck.harness('interpolate[profile, time last]', interp((2, 1), 1, shape=2, scal=True))
ck.harness('cache', cache(3 if ck.thorough else 2))
ck.harness('gaps', gaps)
for p in PAT:
    ck.harness(f'daily[{p}]', daily(p))
ck.finish()
