"""C28: diagnostic output records each evaluation exactly once"""
from stand import *
from h5_mem import H5
import os
import shutil
import tempfile
from types import SimpleNamespace
import numpy as np
import h5py
import firedrake as fd
import thetis.callback as cb
import thetis.exporter as ex
from thetis.field_defs import field_metadata

ck = Check('C28', 'callback-output')
TECHNIQUE = 'symbolic execution of the real callbacks, HDF5 writer, callback manager and export manager with symbolic times, time' \
            ' windows, values, start indices and restart points; the written records are compared with the evaluations by z3'
ck.encoded('callback.DiagnosticCallback.*', 'callback.DiagnosticHDF5.*', 'callback.CallbackManager.*', 'exporter.ExportManager.*',
           'exporter.VTKExporter.*', 'exporter.HDF5Exporter.*')
N = 4 if ck.thorough else 3
ck.bound(f'{N} evaluations per run and one restart; 1 or 2 variables, scalar or of 2 components; arbitrary times and windows; any index of'
         ' the first evaluation')
ck.assumed('h5py is a stand-in that keeps datasets in memory (concrete runs use the real h5py in a scratch directory)',
           'a restarted run uses the time window of the first run and repeats its export times')


class World:
    """output directory"""
    def __init__(self, h):
        self.h = h
        self.disk = {}
        self.dir = None if h.symbolic else tempfile.mkdtemp(prefix='c28.')

    def __enter__(self):
        p = [(cb, 'print_output', self.log)]
        self.lines = []
        if self.h.symbolic:
            p += [(cb, 'h5py', H5(self.disk)), (cb, 'create_directory', lambda d, **k: d),
                  (cb.os.path, 'isfile', lambda f: f in self.disk), (cb.os.path, 'exists', lambda f: f in self.disk)]
        self.p = patched(*p)
        self.p.__enter__()
        return self

    def __exit__(self, *a):
        self.p.__exit__(*a)
        if self.dir:
            shutil.rmtree(self.dir)

    def log(self, m):
        self.lines.append(m)

    def path(self, d):
        return d if self.h.symbolic else os.path.join(self.dir, d)

    def rows(self, d, name, var):
        f = os.path.join(self.path(d), f'diagnostic_{name}.hdf5')
        if self.h.symbolic:
            return self.disk[f][var].rows if f in self.disk else []
        if not os.path.exists(f):
            return []
        with h5py.File(f) as q:
            return list(q[var][:])


def callback(w, so, dim=1, nvar=1, **kw):
    class C(cb.DiagnosticCallback):
        name = 'my diag'
        variable_names = ['a', 'b'][:nvar]

        def __call__(self):
            self.calls.append(so.simulation_time)
            return self.vals

        def message_str(self, *a):
            return a
    c = C(so, array_dim=dim, **kw)
    c.calls = []
    return c


def solver(w, d='out', rank=0):
    return SimpleNamespace(options=SimpleNamespace(output_directory=w.path(d), simulation_initial_date=None),
                           comm=SimpleNamespace(rank=rank, barrier=lambda: None), simulation_time=0.0)


def window(h):
    """bounds of the evaluation window, or none"""
    a = h.real('start', lo=0, hi=1e6) if h.bool('has_start') else None
    b = h.real('end', lo=0, hi=1e6) if h.bool('has_end') else None
    return a, b


def inside(t, a, b):
    return (a is None or bool(t >= a)) and (b is None or bool(t <= b))


def values(h, w, k, tag, nvar, dim):
    return tuple(h.real(f'v{tag}{k}{i}', lo=-100, hi=100) if dim == 1
                 else np.array([h.real(f'v{tag}{k}{i}{j}', lo=-100, hi=100) for j in range(dim)], dtype=object if h.symbolic else float)
                 for i in range(nvar))


def flat(v):
    return list(np.ravel(np.array(v, dtype=object)))


def compare(h, w, d, c, want, nvar, dim, time, what):
    """records of the file against [(time, values)]"""
    for i in range(nvar):
        got = w.rows(d, 'my_diag', c.variable_names[i])
        h.prove(len(got) == len(want), f'{what}: one record per evaluation')
        if len(got) == len(want):
            for g, (t, v) in zip(got, want):
                h.prove(g is not None, f'{what}: the record was written')
                for p, q in zip(flat(g), flat(v[i])):
                    h.prove_eq(p, q, f'{what}: values', tol=0 if h.symbolic else 1e-9)
    if time:
        got = w.rows(d, 'my_diag', 'time')
        h.prove(len(got) == len(want), f'{what}: one time per evaluation')
        if len(got) == len(want):
            for g, (t, v) in zip(got, want):
                h.prove_eq(flat(g)[0], t, f'{what}: time', tol=0 if h.symbolic else 1e-9)


def appended(nvar, dim):
    """evaluations without index"""
    def run(h):
        a, b = window(h)
        log, h5, time = h.bool('log'), h.bool('hdf5'), h.bool('time')
        t = [h.real(f't{k}', lo=0, hi=1e6) for k in range(N)]
        with World(h) as w:
            so = solver(w)
            c = callback(w, so, dim, nvar, append_to_log=log, export_to_hdf5=h5, include_time=time, start_time=a, end_time=b)
            want = []
            for k in range(N):
                so.simulation_time = t[k]
                c.vals = values(h, w, k, '', nvar, dim)
                c.evaluate()
                if inside(t[k], a, b):
                    want.append((t[k], c.vals))
            h.prove(len(c.calls) == len(want), 'evaluated once per call inside the window')
            h.prove(len(w.lines) == (len(want) if log else 0), 'one message per evaluation')
            for m, (_, v) in zip(w.lines, want):
                for p, q in zip(flat(m), flat(v)):
                    h.prove_eq(p, q, 'message', tol=0 if h.symbolic else 1e-9)
            compare(h, w, 'out', c, want if h5 else [], nvar, dim, time, 'file')
            h.prove_eq(t[0], t[0], 'reached')
    return run


def ranks(h):
    """only rank 0 writes"""
    with World(h) as w:
        so = solver(w, rank=1)
        c = callback(w, so)
        so.simulation_time = h.real('t', lo=0, hi=10)
        c.vals = values(h, w, 0, '', 1, 1)
        if h.symbolic:
            w.p.__exit__(None, None, None)
            w.p = patched((cb, 'print_output', w.log), (cb, 'h5py', H5(w.disk)), (cb, 'create_directory', lambda d, **k: d))
            w.p.__enter__()
        opened = False
        try:
            c.evaluate()
        except KeyError:
            opened = True       # a file without data sets
        h.prove(not opened and w.rows('out', 'my_diag', 'a') == [], 'nothing is written on other ranks')
        h.prove_eq(w.lines[0][0], c.vals[0], 'message on every rank is left to the logger')


def indexed(restart):
    """evaluations with an index (3D exports), followed by a restart that repeats some of them"""
    def run(h):
        a, b = window(h)
        i0 = h.choice('first', [0, 1, 3])
        t0, dt = h.real('t0', lo=0, hi=1e5), h.real('dt', lo=1, hi=1e5)
        if i0 == 0:
            h.assume(t0 == 0)
        tm = lambda i: t0 + (i - i0)*dt
        log = []
        d2 = 'out' if restart != 'elsewhere' else 'other'
        want, want2 = {}, {}
        with World(h) as w:
            so = solver(w)
            c = callback(w, so, start_time=a, end_time=b)

            def ev(c, so, i, tag, want):
                so.simulation_time = tm(i)
                c.vals = values(h, w, i, tag, 1, 1)
                c.evaluate(index=i)
                if inside(tm(i), a, b):
                    want[i] = (tm(i), c.vals)
            for i in range(i0, i0 + N):
                ev(c, so, i, 'p', want)
            compare(h, w, 'out', c, [want[i] for i in sorted(want)], 1, 1, True, 'first run')
            if restart:
                j = i0 + h.choice('restart', list(range(N)))
                so = solver(w, d2)
                c = callback(w, so, start_time=a, end_time=b)
                c.set_write_mode('append')
                new = want if restart == 'same' else {}
                m = h.choice('more', [1, 2])
                for i in range(j + 1 if restart == 'same' else j, j + 1 + m):
                    ev(c, so, i, 'q', new)
                compare(h, w, d2, c, [new[i] for i in sorted(new)], 1, 1, True, 'second run')
                if restart == 'elsewhere':
                    compare(h, w, 'out', c, [want[i] for i in sorted(want)], 1, 1, True, 'first file is untouched')
            h.prove_eq(t0, t0, 'reached')
    return run


def fresh(h):
    """a new run replaces the file of an old one"""
    with World(h) as w:
        want = []
        for tag in 'pq':
            so = solver(w)
            c = callback(w, so)
            n = h.choice('n' + tag, [1, 2, 3])
            want = []
            for k in range(n):
                so.simulation_time = h.real(f't{tag}{k}', lo=0, hi=100)
                c.vals = values(h, w, k, tag, 1, 1)
                c.evaluate(index=k if h.bool(f'i{tag}') else None)
                want.append((so.simulation_time, c.vals))
            compare(h, w, 'out', c, want, 1, 1, True, f'run {tag}')
        h.prove_eq(c.vals[0], c.vals[0], 'reached')


def manager(h):
    """each callback of a mode once, with the index that was given; other modes not"""
    m = cb.CallbackManager()
    log = []
    idx = h.real('index', lo=0, hi=100) if h.bool('has_index') else None
    names = ['b', 'a', 'c']
    for mode in ('export', 'timestep'):
        for n in names:
            m.add(SimpleNamespace(name=n, evaluate=lambda index=None, n=n, mode=mode: log.append((mode, n, index))), mode)
    # replacing a callback of the same name in one mode
    m.add(SimpleNamespace(name='a', evaluate=lambda index=None: log.append(('export', 'a2', index))), 'export')
    for mode in ('export', 'timestep', 'none'):
        del log[:]
        m.evaluate(mode, index=idx)
        w = [] if mode == 'none' else sorted(names)
        w = ['a2' if q == 'a' and mode == 'export' else q for q in w]
        h.prove(sorted((q[0], q[1]) for q in log) == sorted((mode, q) for q in w), 'callbacks of the mode, each once')
        for q in log:
            if idx is None:
                h.prove(q[2] is None, 'no index')
            else:
                h.prove_eq(q[2], idx, 'index')


# ---- fields ---------------------------------------------------------------------------------------------------------
def fields(h):
    """each export writes every field once, after its pre-processing, under consecutive numbers"""
    kind = h.choice('kind', ['vtk', 'hdf5'])
    first = h.choice('first', [0, 7])
    jump = h.choice('jump', [None, 3])
    pre = h.bool('preproc')
    mesh = fd.UnitTriangleMesh()
    V = fd.FunctionSpace(mesh, 'DG', 1)
    fs = {k: fd.Function(V, name=k) for k in ('elev_2d', 'bathymetry_2d')}
    log = []
    times = [h.real(f't{k}', lo=0, hi=100) for k in range(3)]

    class VTK:
        def __init__(self, path):
            self.path = path
            import itertools
            self.counter = itertools.count()

        def write(self, f, time=None):
            log.append(('write', self.path, next(self.counter), time))

    class CP:
        def __init__(self, fn, mode):
            self.fn, self.a = fn, {}
            h.prove(mode == 'w', 'opened for writing')

        def __enter__(self):
            return self

        def __exit__(self, *a):
            log.append(('write', self.fn, self.n, self.a.get('time')))

        def save_mesh(self, m):
            pass

        def set_attr(self, p, k, v):
            self.a[k] = v

        def save_function(self, f):
            self.n = f.name()
    cast = []
    pp = [(ex, 'VTKFile', VTK), (ex, 'CheckpointFile', CP), (ex, 'create_directory', lambda d, **k: d),
          (ex, 'get_interpolator', lambda e: SimpleNamespace(assemble=lambda: cast.append(1) or fd.Function(V))),
          (ex, 'float', lambda x: x)]
    with patched(*pp):
        m = ex.ExportManager('out', list(fs) + ['uv_2d'], fs, field_metadata, export_type=kind, next_export_ix=first,
                             include_time=kind == 'hdf5')
        other = ex.ExportManager('other', list(fs), fs, field_metadata, export_type=kind, include_time=kind == 'hdf5')
        u = fd.Function(V, name='mine')
        m.add_export('mine', u, export_type=kind, next_export_ix=first, shortname='Mine', filename='MyField',
                     preproc_func=(lambda: log.append(('pre', 'mine'))) if pre else None)
        if pre:
            m.add_export('elev_2d', fs['elev_2d'], export_type=kind, next_export_ix=first,
                         preproc_func=lambda: log.append(('pre', 'elev_2d')))
        n = first
        files = {'elev_2d': 'Elevation2d', 'bathymetry_2d': field_metadata['bathymetry_2d']['filename'], 'mine': 'MyField'}
        for k, t in enumerate(times):
            if k == 1 and jump is not None:
                n = jump
                m.set_next_export_ix(n)
            del log[:]
            m.export(time=t)
            wr = [q for q in log if q[0] == 'write']
            h.prove(len(wr) == 3, 'each field once')
            for key, fn in files.items():
                if kind == 'vtk':
                    mine = [q for q in wr if q[1] == f'out/{fn}/{fn}.pvd']
                    h.prove(len(mine) == 1 and mine[0][2] == n and mine[0][3] == n, 'file and number')
                else:
                    mine = [q for q in wr if q[1] == f'out/{fn}_{n:05d}.h5']
                    h.prove(len(mine) == 1 and mine[0][2] == key, 'file, number and field')
                    if mine:
                        h.prove_eq(mine[0][3], t, 'time stamp')
            pr = [q[1] for q in log if q[0] == 'pre']
            h.prove(sorted(pr) == (['elev_2d', 'mine'] if pre else []), 'pre-processing once')
            for key in pr:
                i = log.index(('pre', key))
                j = [i2 for i2, q in enumerate(log) if q[0] == 'write' and files[key] in q[1]][0]
                h.prove(i < j, 'pre-processing comes first')
            n += 1
            h.prove(all(e.next_export_ix == n for e in m.exporters.values()), 'next number')
        if kind == 'hdf5':
            del log[:]
            e = m.exporters['mine']
            e.export_as_index(42, u, time=times[1])
            e.export(u, time=times[2])
            h.prove([q[1] for q in log] == ['out/MyField_00042.h5', 'out/MyField_00043.h5'], 'numbering continues after an explicit number')
            h.prove_eq(log[0][3], times[1], 'time stamp')
            h.prove_eq(log[1][3], times[2], 'time stamp')
        del log[:]
        other.export(time=times[0])
        h.prove([q for q in log if q[0] == 'pre'] == [], 'pre-processing of another manager is not run')
        h.prove(len([q for q in log if q[0] == 'write']) == 2, 'fields of the other manager')
        h.prove_eq(times[0], times[0], 'reached')


def suffix(h):
    """name of the collection file"""
    made = []
    name = h.choice('name', ['Elev', 'Elev.pvd', 'a.b', 'abc.pvd'])
    with patched((ex, 'VTKFile', lambda p: made.append(p) or SimpleNamespace()), (ex, 'create_directory', lambda d, **k: d)):
        ex.VTKExporter(None, 'x', 'out', name)
    x = h.real('x')
    h.prove(len(made) == 1 and made[0].endswith(name + ('' if name.endswith('.pvd') else '.pvd')), 'the suffix is appended if missing')
    h.prove(not made[0].endswith('.pvd.pvd'), 'the suffix is appended only if missing')
    h.prove_eq(x, x, 'reached')


def cast(h):
    """the field written is the field given, at its value of that moment, whatever was exported before through the same exporter"""
    proj = h.choice('project', [False, True])
    m = fd.UnitTriangleMesh()
    V, W = fd.FunctionSpace(m, 'DG', 1), fd.FunctionSpace(m, 'DG', 0)
    F = [fd.Function(V, name='f0'), fd.Function(V, name='f1'), fd.Function(W, name='f2')]
    now, out = {}, []

    class Op:
        def __init__(self, f, space=None):
            self.f, self.to, self.out = f, space, fd.Function(V)

        def assemble(self):
            self.out.val = now[id(self.f)]
            return self.out
        project = assemble

    class VTK:
        counter = None

        def __init__(self, path):
            pass

        def write(self, f, time=None):
            out.append((f.val, f.name()))
    with patched((ex, 'VTKFile', VTK), (ex, 'create_directory', lambda d, **k: d), (ex, 'interpolate', Op),
                 (ex, 'get_interpolator', lambda e: e), (ex, 'Projector', Op)):
        e = ex.VTKExporter(V, 'Name', 'out', 'x', project_output=proj)
        n = 0
        for k in range(4):
            i = 0 if k == 0 else h.choice(f'which{k}', [0, 1, 2])
            for j, f in enumerate(F):
                now[id(f)] = h.real(f'v{k}_{j}')
            e.export(F[i])
            n += 1
            h.prove(len(out) == n, 'one record per export')
            h.prove_eq(out[-1][0], now[id(F[i])], 'the current values of the exported function')
            h.prove(out[-1][1] == 'Name', 'name of the record')


for nv, dim in ((1, 1), (2, 1), (2, 2)):
    ck.harness(f'appended[{nv}x{dim}]', appended(nv, dim), max_paths=4000)
ck.harness('ranks', ranks)
for r in ('', 'same', 'elsewhere'):
    ck.harness(f'indexed[{r}]', indexed(r), max_paths=8000)
ck.harness('fresh', fresh, max_paths=400)
ck.harness('manager', manager)
ck.harness('fields', fields)
ck.harness('suffix', suffix)
ck.harness('cast', cast)
ck.finish()
