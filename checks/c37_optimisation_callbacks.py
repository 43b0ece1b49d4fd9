"""C37: callbacks of an optimisation record and export the values they are named after"""
from stand import *
from h5_mem import H5
import os
import shutil
import tempfile
from types import SimpleNamespace
import numpy as np
import h5py
import firedrake as fd
import thetis.callback as cb
import thetis.exporter as ex
import thetis.optimisation as op
from thetis.field_defs import field_metadata

ck = Check('C37', 'optimisation-callbacks')
TECHNIQUE = 'symbolic execution of the real callbacks and export managers with arbitrary functional, control and derivative values over' \
            ' several evaluations; z3 compares what was recorded, exported and returned with what was given'
ck.encoded('optimisation.*', 'callback.DiagnosticCallback.*', 'callback.DiagnosticHDF5.*', 'exporter.ExportManager.*', 'exporter.VTKExporter.*')
N = 4 if ck.thorough else 3
ck.bound(f'{N} evaluations; up to 3 controls; lists of callbacks nested once; every combination of names, prefixes and file names listed')
ck.assumed('h5py is a stand-in that keeps datasets in memory (concrete runs use the real h5py in a scratch directory)',
           'writing and interpolating fields is left to Firedrake')
SIZE = 1e6
TOL = 1e-9


class World:
    def __init__(self, h):
        self.h, self.disk, self.lines = h, {}, []
        self.dir = None if h.symbolic else tempfile.mkdtemp(prefix='c37.')

    def __enter__(self):
        p = [(cb, 'print_output', self.lines.append), (op, 'print_output', self.lines.append)]
        if self.h.symbolic:
            p += [(cb, 'h5py', H5(self.disk)), (cb, 'create_directory', lambda d, **k: d), (op, 'float', lambda x: x),
                  (cb.os.path, 'isfile', lambda f: f in self.disk), (cb.os.path, 'exists', lambda f: f in self.disk)]
        self.p = patched(*p)
        self.p.__enter__()
        self.solver = SimpleNamespace(options=SimpleNamespace(output_directory=self.dir or 'out', simulation_initial_date=None),
                                      comm=SimpleNamespace(rank=0, barrier=lambda: None), simulation_time=0.0)
        return self

    def __exit__(self, *a):
        self.p.__exit__(*a)
        if self.dir:
            shutil.rmtree(self.dir)

    def rows(self, name, var):
        f = os.path.join(self.dir or 'out', f'diagnostic_{name}.hdf5')
        if self.h.symbolic:
            return self.disk[f][var].rows if f in self.disk else []
        if not os.path.exists(f):
            return []
        with h5py.File(f) as q:
            return list(q[var][:])

    def variables(self, name):
        f = os.path.join(self.dir or 'out', f'diagnostic_{name}.hdf5')
        if self.h.symbolic:
            return sorted(self.disk.get(f, ()))
        if not os.path.exists(f):
            return []
        with h5py.File(f) as q:
            return sorted(q)


def flat(v):
    return list(np.ravel(np.array(v, dtype=object)))


def reals(h, tag, n):
    return [h.real(f'{tag}{i}', lo=-SIZE, hi=SIZE) for i in range(n)]


def derivative(x):
    """derivative with respect to a number"""
    data = np.array([x], dtype=object) if is_sym(x) else np.array([float(x)])
    return SimpleNamespace(dat=SimpleNamespace(data=data, data_ro=data))


def args_of(h, tag, stage, n):
    """arguments of the stage: (functional, derivatives, controls)"""
    J = h.real(f'J{tag}', lo=-SIZE, hi=SIZE)
    m, d = reals(h, f'm{tag}_', n), reals(h, f'd{tag}_', n)
    D = [derivative(x) for x in d]
    return J, d, m, {'pre': (m,), 'eval': (J, m), 'derivative': (J, D, m), 'hessian': (J, D, m)}[stage]


CLASSES = {'functional': op.FunctionalOptimisationCallback, 'controls': op.ConstantControlOptimisationCallback,
           'derivatives': op.DerivativeConstantControlOptimisationCallback}
STAGES = {'functional': ['eval', 'derivative', 'hessian'], 'controls': ['pre', 'eval', 'derivative', 'hessian'],
          'derivatives': ['derivative', 'hessian']}


def recorded(kind):
    """every evaluation is recorded once, in order"""
    def run(h):
        stage = h.choice('stage', STAGES[kind])
        log, file = h.bool('log'), h.bool('file')
        n = h.choice('controls', [1, 2, 3])
        want, said = [], []
        with World(h) as w:
            c = CLASSES[kind](w.solver, append_to_log=log, export_to_hdf5=file, array_dim=1 if kind == 'functional' else n)
            with patched((c, 'message_str', lambda *a: a)):
                for k in range(N):
                    J, d, m, args = args_of(h, k, stage, n)
                    want.append({'functional': [J], 'controls': m, 'derivatives': d}[kind])
                    r = c(*args)
                    if stage in ('derivative', 'hessian'):
                        h.prove(r is args[1], 'the derivatives are passed on')
                    if stage == 'pre':
                        h.prove(r is args[0], 'the controls are passed on')
            got = w.rows(kind, kind)
            h.prove(len(got) == (N if file else 0), 'one record per evaluation')
            h.prove(len(w.lines) == (N if log else 0), 'one message per evaluation')
            if file:
                h.prove(w.variables(kind) == [kind], 'no time is stored unless asked for')
            for rec in ([got] if file else []) + ([w.lines] if log else []):
                for g, v in zip(rec, want):
                    h.prove(len(flat(g)) == len(v), 'number of values')
                    for p, q in zip(flat(g), v):
                        h.prove_eq(p, q, 'value recorded', tol=0 if h.symbolic else TOL)
            h.prove_eq(want[0][0], want[0][0], 'reached')
    return run


def messages(h):
    """the message states the value"""
    x = h.real('x', lo=-SIZE, hi=SIZE)
    kind = h.choice('kind', list(CLASSES))
    seen = []

    class Text:
        def __init__(self, v):
            self.v = v

        def __repr__(self):
            seen.append(self.v)
            return 'value'
        __str__ = __repr__

        def __format__(self, f):
            return str(self)
    c = object.__new__(CLASSES[kind])
    m = c.message_str(Text(x) if kind == 'functional' else [Text(x)])
    h.prove('value' in m and len(seen) == 1, 'the value is in the message')
    h.prove_eq(seen[0], x, 'value')


def refused(h):
    """a callback that cannot give its value at a stage, or for this number of controls, says so and records nothing"""
    case = h.choice('case', ['functional pre', 'derivatives pre', 'derivatives eval', 'controls size', 'derivatives size'])
    kind, what = case.split()
    n = h.choice('controls', [2, 3])
    dim = n if kind != 'functional' else 1
    stage = what
    if what == 'size':
        dim = h.choice('dim', [1, 4])
        stage = 'derivative'
    J, d, m, args = args_of(h, 0, stage, n)
    with World(h) as w:
        c = CLASSES[kind](w.solver, array_dim=dim)
        err = None
        try:
            c(*args)
        except (TypeError, ValueError) as e:
            err = e
        h.prove(type(err) is (ValueError if what == 'size' else TypeError), 'refused')
        h.prove(w.rows(kind, kind) == [] and w.lines == [], 'nothing recorded')
        h.prove_eq(J, J, 'reached')


def lists(h):
    """every callback of a list is called once, in order, with the arguments given; derivatives and controls are passed on"""
    stage = h.choice('stage', ['pre', 'eval', 'derivative'])
    n = h.choice('number', [0, 1, 3])
    log = []

    class C(op.OptimisationCallback):
        def __init__(self, i):
            self.i = i

        def callback(self, *a):
            log.append((self.i, a))
    inner = [C(10), C(11)]
    L = op.OptimisationCallbackList([C(i) for i in range(n)])
    order = list(range(n))
    if h.bool('nested'):
        L.append(op.OptimisationCallbackList(inner))
        order += [10, 11]
    J, d, m, args = args_of(h, 0, stage, 2)
    for k in range(2):
        del log[:]
        r = L(*args)
        h.prove([i for i, a in log] == order, 'each once, in order')
        for i, a in log:
            h.prove(len(a) == len(args), 'same arguments')
            for p, q in zip(a, args):
                if isinstance(q, list):
                    h.prove(p is q, 'same lists')
                else:
                    h.prove_eq(p, q, 'same functional')
        if stage != 'eval':
            h.prove(r is (args[1] if stage == 'derivative' else args[0]), 'passed on')
    h.prove_eq(J, J, 'reached')


# ---- fields --------------------------------------------------------------------------------------------------------------
MESH = fd.UnitTriangleMesh()
V, VV, W1 = fd.FunctionSpace(MESH, 'DG', 1), fd.VectorFunctionSpace(MESH, 'DG', 1), fd.FunctionSpace(MESH, 'DG', 0)


class Fields:
    """every field has one value; copies and writes are recorded"""
    def __init__(self, h):
        self.h, self.now, self.out, self.files, self.keep = h, {}, [], [], []

    def __enter__(self):
        F = self

        class Function(fd.Function):
            def assign(self, o, *a, **k):
                F.now[id(self)] = F.now[id(o)]
                return self

        class Op:
            def __init__(self, f, space=None):
                self.f, self.out = f, fd.Function(f.function_space())

            def assemble(self):
                self.out.val = F.now.get(id(self.f), 2*Fr(SIZE))
                return self.out
            project = assemble

        class VTK:
            counter = None

            def __init__(self, path):
                self.path = path
                F.files.append(path)

            def write(self, f, time=None):
                F.out.append((self.path, f.name(), next(self.counter), f.val))
        self.p = patched((ex, 'VTKFile', VTK), (ex, 'create_directory', lambda d, **k: d), (ex, 'interpolate', Op),
                         (ex, 'get_interpolator', lambda e: e), (op, 'Function', Function))
        self.p.__enter__()
        return self

    def __exit__(self, *a):
        self.p.__exit__(*a)

    def field(self, name, space=V):
        f = fd.Function(space, name=name)
        self.keep.append(f)
        return f

    def set(self, f, v):
        self.now[id(f)] = v


def naming(fields, shortnames, filenames, prefix):
    """file and name of each field as documented"""
    out = []
    for i, f in enumerate(fields):
        key = f if shortnames is None else shortnames[i]
        known = field_metadata.get(key)
        name = known['shortname'] if known is not None and shortnames is None else key
        file = filenames[i] if filenames is not None else prefix + (known['filename'] if known is not None else key)
        out.append((f'dir/{file}/{file}.pvd', name))
    return out


def outputs(h, F, n, want, vals, what):
    """records of one export"""
    h.prove(len(F.out) == len(want), f'{what}: every field once')
    for (path, name), v in zip(want, vals):
        mine = [q for q in F.out if q[0] == path]
        h.prove(len(mine) == 1, f'{what}: file of the field')
        if len(mine) == 1:
            h.prove(mine[0][1] == name, f'{what}: name of the field')
            h.prove(mine[0][2] == n, f'{what}: number of the export')
            h.prove_eq(mine[0][3], v, f'{what}: values')


def target(h):
    return 'dir' if h.bool('string') else SimpleNamespace(options=SimpleNamespace(output_directory='dir'))


def options(h, nf, default):
    kw = {}
    short = h.choice('shortnames', [None, ['first', 'second', 'third'][:nf], ['uv_2d', 'b', 'elev_2d'][:nf]])
    files = h.choice('filenames', [None, ['A', 'B', 'C'][:nf]])
    prefix = h.choice('prefix', [None, '', 'my_'])
    if short is not None:
        kw['shortnames'] = short
    if files is not None:
        kw['filenames'] = files
    if prefix is not None:
        kw['filename_prefix'] = prefix
    return kw, short, files, default if prefix is None else prefix


NAMES = (['f'], ['elev_2d'], ['f', 'elev_2d', 'g'], ['uv_2d', 'f', 'bathymetry_2d'])


def user(h):
    """functions of any name are exported under documented names with their current values"""
    names = h.choice('names', NAMES)
    kw, short, files, prefix = options(h, len(names), '')
    first = h.choice('first', [None, 4])
    if first is not None:
        kw['next_export_ix'] = first
    with Fields(h) as F:
        fs = [F.field(n) for n in names]
        m = op.UserExportManager(target(h), fs, **kw)
        want = naming(names, short, files, prefix)
        for k in range(2):
            v = reals(h, f'v{k}_', len(fs))
            for f, x in zip(fs, v):
                F.set(f, x)
            del F.out[:]
            m.export()
            outputs(h, F, (first or 0) + k, want, v, 'export')


class Block:
    def __init__(self, f):
        self.saved_output = f


def checkpointed(h):
    """the values at the current end of the tape are exported, for the functions given, at each call"""
    names = h.choice('names', NAMES[1:3])
    kw, short, files, prefix = options(h, len(names), 'optimisation_')
    stage = h.choice('stage', ['pre', 'eval', 'derivative'])
    with Fields(h) as F:
        fs = [F.field(n) for n in names]
        for f in fs:
            F.keep.append(Block(f))
            f.block_variable = F.keep[-1]
        c = op.UserExportOptimisationCallback(target(h), fs, **kw)
        want = naming(names, short, files, prefix)
        for k in range(N):
            v, old = reals(h, f'v{k}_', len(fs)), reals(h, f'o{k}_', len(fs))
            for f, x, o in zip(fs, v, old):
                F.set(f, o)
                s = F.field(f'saved{k}')
                F.set(s, x)
                f.block_variable.saved_output = s
                if k == 1:
                    # checkpoint replaced before the next call
                    s2 = F.field('again')
                    F.set(s2, x)
                    F.set(s, o)
                    f.block_variable.saved_output = s2
            a = args_of(h, f'a{k}', stage, 2)[3]
            del F.out[:]
            r = c(*a)
            outputs(h, F, k, want, v, 'callback')
            if stage != 'eval':
                h.prove(r is (a[1] if stage == 'derivative' else a[0]), 'passed on')


def deferred(kind):
    """controls or derivatives of each call are exported under the name of the control, whatever objects hold them; nothing is made before"""
    def run(h):
        space = h.choice('space', [V, VV])
        single = h.bool('single')
        names = ['f'] if single else h.choice('names', [['elev_2d'], ['f', 'elev_2d', 'g']])
        kw, short, files, prefix = options(h, len(names), kind + '_')
        stage = 'derivative' if kind == 'derivative' else h.choice('stage', ['pre', 'eval', 'derivative'])
        with Fields(h) as F:
            c = {'control': op.ControlsExportOptimisationCallback, 'derivative': op.DerivativesExportOptimisationCallback}[kind](target(h), **kw)
            h.prove(F.files == [], 'no file before the first call')
            want = naming(names, short, files, prefix)
            for k in range(N):
                v, d = reals(h, f'v{k}_', len(names)), reals(h, f'd{k}_', len(names))
                C, D = [], []
                for i, n in enumerate(names):
                    # copies in later calls carry other names
                    C.append(F.field(n if k == 0 else f'copy{k}', space))
                    D.append(F.field(f'der{i}{k}', space))
                    F.set(C[-1], v[i])
                    F.set(D[-1], d[i])
                cs, ds = (C[0], D[0]) if single else (C, D)
                J = h.real(f'J{k}', lo=-SIZE, hi=SIZE)
                a = {'pre': (cs,), 'eval': (J, cs), 'derivative': (J, ds, cs)}[stage]
                del F.out[:]
                r = c(*a)
                outputs(h, F, k, want, v if kind == 'control' else d, 'callback')
                if stage != 'eval':
                    h.prove(r is (a[1] if stage == 'derivative' else a[0]), 'passed on')
                # the export keeps its own copy
                h.prove(all(id(f) not in [id(q) for q in C + D] for f in c.functions), 'own copies')
    return run


def stage(h):
    """derivatives cannot be exported where there are none"""
    s = h.choice('stage', ['pre', 'eval'])
    with Fields(h) as F:
        c = op.DerivativesExportOptimisationCallback('dir')
        f = F.field('f')
        v = h.real('v', lo=-SIZE, hi=SIZE)
        F.set(f, v)
        err = None
        try:
            c(*(([f],) if s == 'pre' else (v, [f])))
        except TypeError as e:
            err = e
        h.prove(err is not None and F.out == [], 'refused, nothing exported')
        h.prove_eq(v, v, 'reached')


for kd in CLASSES:
    ck.harness(f'recorded[{kd}]', recorded(kd))
ck.harness('messages', messages)
ck.harness('refused', refused)
ck.harness('lists', lists)
ck.harness('user exports', user)
ck.harness('checkpointed exports', checkpointed)
for kd in ('control', 'derivative'):
    ck.harness(f'deferred exports[{kd}]', deferred(kd))
ck.harness('stage', stage)
ck.finish()
