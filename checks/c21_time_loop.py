"""C21: time, iteration and export bookkeeping of the time loops, and restarts"""
from stand import *
import datetime
from types import SimpleNamespace
from fractions import Fraction as Fr
import thetis.solver2d as s2
import thetis.solver as s3
from thetis import exporter as ex, callback as cb
from thetis.options import ModelOptions2d, ModelOptions3d
from thetis.utility import AttrDict
from thetis.field_defs import field_metadata

FN = {k: v['filename'] for k, v in field_metadata.items()}


ck = Check('C21', 'time-loop')
TECHNIQUE = 'symbolic execution of the real time loops, load_state and export managers with symbolic step, export interval, start,' \
            ' end and stored index; the number of steps and the exports of each step are branches decided by z3'
ck.encoded('solver2d.FlowSolver2d.create_iterator/iterate/export/load_state/add_callback', 'solver.FlowSolver.iterate/export/load_state',
           'exporter.ExportManager.export/set_next_export_ix', 'exporter.HDF5Exporter.export/export_as_index/load/gen_filename',
           'exporter.VTKExporter.export/set_next_export_ix', 'callback.CallbackManager.add/evaluate')
ck.bound('at most 5 steps per run (7 thorough); export interval between one step and the length of the run; any start time in'
         ' [0, 1e6], any step in [0.01, 1e4]; restart from any stored export of a run of at most 4 steps')
ck.assumed('HDF5 and VTK writers, the stepper and field norms are stand-ins; the export interval is at least one step',
           'comparisons of times allow the documented tolerance of 1e-5 s')
N = 7 if ck.thorough else 5
EPS = Fr(1, 10**5)


class Opt:
    """the real option defaults, values may be symbolic"""
    def __init__(self, real, **kw):
        self.__dict__['_real'] = real
        self.__dict__.update(kw)

    def __getattr__(self, k):
        return getattr(self.__dict__['_real'], k)


def day(h, s):
    return Date(s) if h.symbolic else datetime.datetime(2001, 2, 3) + datetime.timedelta(seconds=float(s))


class Field(Val):
    def __init__(self, v, name):
        super().__init__(v, name)
        self.comm = None

    def function_space(self):
        return _space(self.name_)

    def __iadd__(self, o):
        self.v = self.v + o.v
        return self

    def __isub__(self, o):
        self.v = self.v - o.v
        return self


_spaces = {}


def _space(n):
    if n not in _spaces:
        _spaces[n] = SimpleNamespace(name=n, mesh=lambda: SimpleNamespace(sfXC=1))
    return _spaces[n]


class World:
    def __init__(self, h, dim, disk, **opt):
        self.h, self.dim, self.disk = h, dim, disk
        self.log = []
        self.mod = s2 if dim == 2 else s3
        cls = s2.FlowSolver2d if dim == 2 else s3.FlowSolver
        real = ModelOptions2d() if dim == 2 else ModelOptions3d()
        o = Opt(real, simulation_initial_date=None, simulation_end_date=None, simulation_end_time=None, output_directory='out',
                **({} if dim == 2 else dict(solve_salinity=False, solve_temperature=False, use_turbulence=False)),
                **{k: v for k, v in opt.items() if k not in ('simulation_end_time', 'simulation_initial_date', 'simulation_end_date')})
        for k in ('simulation_end_time', 'simulation_initial_date', 'simulation_end_date'):
            if k in opt:
                setattr(o, k, opt[k])
        self.o = o
        s = object.__new__(cls)
        self.s = s
        F = AttrDict()
        for i, k in enumerate(('uv_2d', 'elev_2d') + (('uv_3d', 'uv_dav_3d') if dim == 3 else ())):
            F[k] = Field(h.real('f_' + k, lo=-3, hi=3), k)
        F.bathymetry_2d = Field(1.0, 'bathymetry_2d')
        self.F = F
        w = self
        names = ['uv_2d', 'elev_2d'] + (['uv_3d'] if dim == 3 else [])
        self.names = names
        s.__dict__.update(options=o, fields=F, _initialized=True, simulation_time=0, iteration=0, i_export=0, export_initial_state=True,
                          callbacks=cb.CallbackManager(), dt=opt['dt'], next_export_t=opt['simulation_export_time'],
                          _simulation_continued=False, comm=None)
        s.__dict__['print_state'] = lambda *a, **k: w.log.append(('print', s.i_export, s.iteration, s.simulation_time))
        s.__dict__['assign_initial_conditions'] = lambda *a, **k: w.log.append(('ic', F.uv_2d.v, F.elev_2d.v))

        class Step:
            def advance(self, t, *forc):
                w.log.append(('advance', t, s.iteration, forc))
                w.forc = forc
                F.uv_2d.v = w.uf('uv', F.uv_2d.v, F.elev_2d.v)
                F.elev_2d.v = w.uf('elev', F.uv_2d.v, F.elev_2d.v)

            def _remove_depth_average_from_uv_3d(self):
                pass
        self.uf = UF(h)
        s.__dict__['timestepper'] = Step()
        for m in ('timestep', 'export'):
            s.callbacks.add(SimpleNamespace(name='cb_' + m, set_write_mode=lambda m: None,
                                            evaluate=lambda index=None, m=m: w.log.append((m, s.simulation_time, s.iteration, s.i_export))),
                            m)
        with patched(*self.patches()):
            s.__dict__['exporters'] = {k: ex.ExportManager('out/' + k, names, F, field_metadata,
                                                           export_type=k, include_time=k == 'hdf5', verbose=False)
                                       for k in ('vtk', 'hdf5')}
            for q in s.exporters.values():
                q.export_bathymetry = lambda b: None

    def patches(self):
        w = self

        class VTK:
            def __init__(self, path, *a, **k):
                self.path = path
                import itertools
                self.counter = itertools.count()

            def write(self, *f, time=None):
                w.log.append(('vtk', self.path.split('/')[-1], next(self.counter), w.s.simulation_time))

        class CP:
            def __init__(self, fn, mode):
                self.fn, self.mode = fn, mode
                if mode == 'w':
                    w.disk[fn] = {}

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

            def save_mesh(self, m):
                pass

            def set_attr(self, p, k, v):
                w.disk[self.fn][k] = v

            def get_attr(self, p, k):
                return w.disk[self.fn][k]

            def save_function(self, f):
                w.disk[self.fn]['@' + f.name()] = f.v
                w.log.append(('hdf5', f.name(), self.fn, w.disk[self.fn].get('time'), f.v))

            def load_function(self, mesh, name):
                return Val(w.disk[self.fn]['@' + name])
        out = [(ex, 'VTKFile', VTK), (ex, 'CheckpointFile', CP), (ex, 'Function', Val), (ex, 'get_visu_space', lambda f: f),
               (ex, 'create_directory', lambda d, *a, **k: d), (self.mod, 'print_output', lambda *a: None),
               (self.mod, 'warning', lambda *a: None), (ex, 'interpolate', lambda f, s: f),
               (ex, 'get_interpolator', lambda f: SimpleNamespace(assemble=lambda: f)), (Val, 'rename', lambda *a, **k: None)]
        if self.h.symbolic:
            out += [(m, 'float', SFloat) for m in (ex, self.mod)] + [(m, 'int', SInt) for m in (ex, self.mod)] \
                + [(m, 'datetime', DT) for m in (ex, self.mod)]
        return out

    def run(self, export_func=None):
        forc = (object(),) if self.dim == 2 else (object(), object())
        yields = []
        with patched(*self.patches()):
            if self.dim == 2:
                for t in self.s.create_iterator(update_forcings=forc[0], export_func=export_func):
                    yields.append(t)
            else:
                self.s.iterate(update_forcings=forc[0], update_forcings3d=forc[1], export_func=export_func)
        return forc, yields


def check_run(h, w, t0, dt, E, end, i0, it0, initial, forc, yields, name='', first_ix=None):
    """the log of a run that started at t0 with counters i0, it0"""
    s = w.s
    L = w.log
    adv = [e for e in L if e[0] == 'advance']
    n = len(adv)
    for k, e in enumerate(adv):
        h.prove_eq(e[1], t0 + k*dt, f'{name}step {k} starts at initial time + {k} dt')
        h.prove_eq(e[2], it0 + k, f'{name}iteration count before step {k}')
        h.prove(e[3] == forc, f'{name}step {k}: forcing callbacks passed on')
    if w.dim == 2:
        h.prove(len(yields) == n, f'{name}one yield for each step')
        for k, y in enumerate(yields):
            h.prove_eq(y, t0 + k*dt, f'{name}iterator yields the time of step {k}')
    h.prove_eq(s.simulation_time, t0 + n*dt, f'{name}final time')
    h.prove_eq(s.iteration, it0 + n, f'{name}final iteration count')
    h.prove_ge(s.simulation_time, end - EPS, f'{name}the run reaches the end time')
    if n:
        h.prove(t0 + (n - 1)*dt < end, f'{name}no step starts at or after the end time')
    ts = [e for e in L if e[0] == 'timestep']
    h.prove(len(ts) == n, f'{name}timestep callbacks once after each step: {len(ts)} for {n}')
    for k, e in enumerate(ts):
        h.prove_eq(e[1], t0 + (k + 1)*dt, f'{name}timestep callback {k} at the new time')
    # exports
    xs = [e for e in L if e[0] == 'export']
    ini = 1 if initial else 0
    m = len(xs) - ini
    h.prove(m >= 0, f'{name}initial export')
    if initial:
        h.prove_eq(xs[0][1], t0, f'{name}initial export at the start time')
        h.prove_eq(xs[0][3], i0, f'{name}initial export number')
    # number of multiples of E reached: m exports  <=>  t0 + m E reached, t0 + (m+1) E not reached
    h.prove(t0 + m*E <= s.simulation_time + EPS, f'{name}not more exports than export times reached')
    h.prove(t0 + (m + 1)*E > s.simulation_time, f'{name}not fewer exports than export times reached')
    h.prove_eq(s.i_export, i0 + m, f'{name}export counter')
    for j in range(1, m + 1):
        if j - 1 + ini >= len(xs):
            break
        e = xs[j - 1 + ini]
        h.prove(e[1] >= t0 + j*E - EPS, f'{name}export {j} not before its time')
        h.prove(e[1] - dt < t0 + j*E, f'{name}export {j} at the first step that reaches its time')
        h.prove_eq(e[3], i0 + j, f'{name}number of export {j}')
    ix = i0 if first_ix is None else first_ix
    for f in w.names:
        v = [e for e in L if e[0] == 'vtk' and e[1] == FN[f] + '.pvd']
        q = [e for e in L if e[0] == 'hdf5' and e[1] == f]
        h.prove(len(v) == len(xs) and len(q) == len(xs), f'{name}{f}: written once at each export')
        for j, (a, b, x) in enumerate(zip(v, q, xs)):
            h.prove_eq(a[2], ix + j, f'{name}{f}: vtk file number {j}')
            h.prove_eq(a[3], x[1], f'{name}{f}: vtk file written at the export time')
            h.prove(b[2] == f'out/hdf5/{FN[f]}_{ix + j:05d}.h5' if not isinstance(ix, SymReal) else True, f'{name}{f}: hdf5 file number {j}')
            h.prove_eq(b[3], x[1], f'{name}{f}: stored time {j}')
    return n, m


def times(h, nmax=N):
    dt = h.real('dt', lo=Fr(1, 100), hi=10**4)
    E = h.real('E', lo=Fr(1, 100), hi=10**5)
    h.assume(E >= dt)
    return dt, E


def fresh(dim, mode):
    def go(h):
        dt, E = times(h)
        t0 = 0 if mode != 'start' else h.real('t0', lo=0, hi=10**6)
        L = h.real('length', lo=0, hi=10**6)
        h.assume(L <= (N - Fr(1, 2) if h.symbolic else N - 0.5)*dt)
        end = t0 + L
        kw = {}
        if mode == 'dates':
            a = h.real('date0', lo=0, hi=10**9)
            end = h.real('span', gt=Fr(1, 1000) if h.symbolic else 1e-3, hi=10**6)
            h.assume(end <= (N - Fr(1, 2) if h.symbolic else N - 0.5)*dt)
            t0 = h.real('t0', lo=0, hi=10**6)
            kw = dict(simulation_initial_date=day(h, a), simulation_end_date=day(h, a + t0 + end),
                      simulation_end_time=None if h.bool('only_dates') else 123.0)
            end = t0 + end
        else:
            kw = dict(simulation_end_time=end)
        w = World(h, dim, {}, dt=dt, simulation_export_time=E, **kw)
        w.s.__dict__['simulation_time'] = t0
        w.s.__dict__['next_export_t'] = t0 + E
        called = []
        ef = (lambda: called.append(w.s.simulation_time))
        initial = True if mode == 'dates' else h.bool('initial')
        w.s.__dict__['export_initial_state'] = initial
        forc, y = w.run(ef)
        n, m = check_run(h, w, t0, dt, E, end, 0, 0, initial, forc, y)
        xs = [e[1] for e in w.log if e[0] == 'export']
        h.prove(len(called) == len(xs), 'export function called once at each export')
        for a, b in zip(called, xs):
            h.prove_eq(a, b, 'export function called at the export')
    return go


def restart(dim):
    """run to the end; continue another run from a stored export in the same directory: same numbering, times, states"""
    def go(h):
        dt = h.real('dt', lo=Fr(1, 100), hi=10**4)
        r = h.choice('ratio', [1, 2])
        E = r*dt
        tot = 4
        end = tot*dt
        disk = {}
        w = World(h, dim, disk, dt=dt, simulation_export_time=E, simulation_end_time=end)
        w.run()
        j = h.choice('stored', list(range(0, tot//r)))
        w2 = World(h, dim, disk, dt=dt, simulation_export_time=E, simulation_end_time=end)
        for f in w2.F.values():
            f.v = 77.0
        mode = h.choice('mode', ['plain', 'no time in file', 'new directory', 'reset'])
        if mode == 'no time in file':
            for k in disk:
                disk[k].pop('time', None)
        over = {}
        if mode == 'new directory':
            w2.o.output_directory = 'other'
            for q in w2.s.exporters.values():
                q.outputdir = q.outputdir.replace('out', 'other')
                for x in q.exporters.values():
                    x.outputdir = x.outputdir.replace('out', 'other')
            over = dict(outputdir='out')
        if mode == 'reset':
            over = dict(iteration=0, t=0, i_export=0)
        keep = {k: dict(v) for k, v in disk.items()}
        with patched(*w2.patches()):
            w2.s.load_state(j, **over)
        b = 0 if mode == 'reset' else j
        h.prove_eq(w2.s.i_export, b, 'export counter after loading')
        h.prove_eq(w2.s.iteration, b*r, 'iteration count after loading')
        h.prove_eq(w2.s.simulation_time, b*E, 'time after loading')
        for f in ('uv_2d', 'elev_2d'):
            h.prove_eq(w2.F[f].v, keep[f'out/hdf5/{FN[f]}_{j:05d}.h5']['@' + f], f'{f} is the stored field')
        first = b if mode == 'new directory' else b + 1
        w2.log.clear()
        with_initial = mode == 'new directory'
        forc, y = w2.run()
        L = [e for e in w2.log]
        adv = [e for e in L if e[0] == 'advance']
        h.prove(len(adv) == tot - b*r, f'steps left: {len(adv)}')
        for k, e in enumerate(adv):
            h.prove_eq(e[1], (b*r + k)*dt, f'continued step {k} time')
            h.prove_eq(e[2], b*r + k, f'continued step {k} iteration')
        xs = [e for e in L if e[0] == 'export']
        left = (tot - b*r)//r + (1 if with_initial else 0)
        h.prove(len(xs) == left, f'exports after the restart: {len(xs)} for {left}')
        for i, e in enumerate(xs):
            h.prove_eq(e[3], first + i, f'number of export {i} after the restart')
            h.prove_eq(e[1], (first + i)*E, f'time of export {i} after the restart')
        d = w2.o.output_directory
        for f in w2.names:
            q = [e for e in L if e[0] == 'hdf5' and e[1] == f]
            v = [e for e in L if e[0] == 'vtk' and e[1] == FN[f] + '.pvd']
            h.prove([e[2] for e in q] == [f'{d}/hdf5/{FN[f]}_{first + i:05d}.h5' for i in range(left)],
                    f'{f}: files continue the numbering: {[e[2] for e in q]}')
            h.prove([e[2] for e in v] == list(range(first, first + left)), f'{f}: vtk numbering continues')
        if mode != 'reset':
            for f in ('uv_2d', 'elev_2d'):
                h.prove_eq(w2.F[f].v, w.F[f].v, f'{f}: the continued run ends in the state of the uninterrupted run')
    return go


def dates(dim):
    """the date stored in the file is restored; one given together with a new time is kept"""
    def go(h):
        dt = h.real('dt', lo=Fr(1, 100), hi=10**4)
        a = h.real('date0', lo=0, hi=10**9)
        d0 = day(h, a)
        disk = {}
        w = World(h, dim, disk, dt=dt, simulation_export_time=dt, simulation_end_time=2*dt, simulation_initial_date=d0)
        for x in w.s.exporters['hdf5'].exporters.values():
            x.initial_time = d0
        w.run()
        w2 = World(h, dim, disk, dt=dt, simulation_export_time=dt, simulation_end_date=day(h, a + 2*dt))
        with patched(*w2.patches()):
            w2.s.load_state(1)
        got = w2.o.simulation_initial_date
        h.prove_eq((got - d0).total_seconds(), 0, 'initial date restored from the file')
        w2.log.clear()
        forc, y = w2.run()
        adv = [e for e in w2.log if e[0] == 'advance']
        h.prove(len(adv) == 1, f'the continued run ends at the end date: {len(adv)} steps')
        if adv:
            h.prove_eq(adv[0][1], dt, 'continued at the stored time')
    return go


def order(h):
    """several callbacks: each registered under one interval, evaluated once; a callback of the same name replaces the old one"""
    M = cb.CallbackManager()
    log = []
    names = ['b', 'a', 'c']
    modes = [h.choice('m' + n, ['export', 'timestep']) for n in names]
    for n, m in zip(names, modes):
        M.add(SimpleNamespace(name=n, evaluate=lambda index=None, n=n: log.append((n, index))), m)
    ix = h.int('ix', lo=0, hi=100)
    for m in ('export', 'timestep'):
        log.clear()
        M.evaluate(m, index=ix)
        want = sorted(n for n, q in zip(names, modes) if q == m)
        h.prove(sorted(e[0] for e in log) == want, f'{m}: every callback of the interval once')
        for e in log:
            h.prove_eq(e[1], ix, f'{m}: export index passed on')


for d in (2, 3):
    ck.harness(f'{d}d fresh', fresh(d, 'zero'), expect_paths=20)
    ck.harness(f'{d}d start time', fresh(d, 'start'), expect_paths=20)
    ck.harness(f'{d}d dates', fresh(d, 'dates'), expect_paths=10)
    ck.harness(f'{d}d restart', restart(d), expect_paths=24)
    ck.harness(f'{d}d restart with dates', dates(d))
ck.harness('callbacks', order, expect_paths=8)
ck.finish()
