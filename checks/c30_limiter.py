"""C30: vertex based slope limiter"""
from stand import *
import numpy as np
import firedrake as fd
from firedrake.slope_limiter import vertex_based_limiter as vb
import thetis.limiter as lm
import ckernel as ckn
from ckernel import SF, values, exact, fmax, fmin

ck = Check('C30', 'limiter')
TECHNIQUE = 'symbolic execution of the real limiter (PyOP2 C kernels parsed and run statement by statement on symbolic nodal values' \
            ' with the real maps, loopy kernels of the base class translated); z3 decides bounds, mean and slope for all nodal values'
ck.encoded('limiter.VertexBasedP1DGLimiter.*', 'limiter kernels (C source)', 'firedrake VertexBasedLimiter.* (library, loopy source)')
ck.bound('2 and 4 triangles, 2x1 and 2x2 prisms (flat and sloping); all nodal values up to 1e9; scalar and vector fields')
ck.assumed('mass matrices are taken from the real assembled forms, entries recognised as simple rationals; exact arithmetic')


# ---- meshes -------------------------------------------------------------------------------------------------------------------
def two_triangles():
    return fd.RectangleMesh(1, 1, 2., 1.)


def four_triangles():
    m = fd.RectangleMesh(2, 1, 2., 1.)
    x = m.coordinates.dat.data
    x[:, 0] += 0.25*(x[:, 1] > 0.5)*(x[:, 0] == 1.)
    return m


def fan():
    m = fd.UnitSquareMesh(1, 1, diagonal='crossed')
    x = m.coordinates.dat.data
    i = np.argmin(np.abs(x - 0.5).sum(axis=1))
    x[i] = (0.375, 0.625)
    return m


def prisms(layers, slope=False):
    def make():
        m = fd.ExtrudedMesh(fd.RectangleMesh(1, 1, 2., 1.), layers=layers, layer_height=1./layers)
        if slope:
            x = m.coordinates.dat.data
            x[:, 2] = (x[:, 2] - 1)*(1. + 0.5*x[:, 0] + x[:, 1])
        return m
    return make


MESH = {'2 triangles': two_triangles, '4 triangles': four_triangles, 'fan': fan, 'prisms': prisms(1), 'prisms, 2 layers': prisms(2),
        'sloping prisms': prisms(1, True)}
cache = {}


def mesh(name, fresh=False):
    if fresh or name not in cache:
        m = MESH[name]()
        if fresh:
            return m
        cache[name] = m
    return cache[name]


# ---- stand-ins ----------------------------------------------------------------------------------------------------------------
def rats(a):
    return np.vectorize(lambda x: exact(x, 1e-13), otypes=[object])(a)


def dense(A):
    """values of an assembled matrix"""
    return np.asarray(A.petscmat[:, :])


class Vec:
    def __init__(self, v):
        self.symdat = ckn.SymDat(v)

    @property
    def dat(self):
        return self.symdat


def assemble(form, tensor=None, **k):
    args = form.arguments()
    sym = [c for c in form.coefficients() if isinstance(c, SF)]
    if len(args) == 2 or not sym:
        return fd.assemble(form, tensor=tensor, **k) if tensor is not None else fd.assemble(form, **k)
    assert len(args) == 1 and len(sym) == 1
    q = sym[0]
    M = dense(fd.assemble(fd.derivative(form, q, fd.TrialFunction(q.function_space()))))
    b = rats(M).dot(q.symdat.v.ravel())
    if tensor is not None:
        tensor.symvec = b
        return tensor
    return Vec(b)


class Solver:
    def __init__(self, A, **k):
        self.A = A

    def solve(self, x, b):
        A = rats(dense(self.A))
        b = b.symvec if hasattr(b, 'symvec') else b.dat.v
        d = np.diag(A)
        assert all(A[i, j] == 0 for i in range(len(A)) for j in range(len(A)) if i != j), 'P0 mass matrix'
        x.symdat.v[...] = b.ravel()/d


class Hooked:
    """limiting loop: only the cell under study is executed, and its inputs get names"""
    def __init__(self, cell=None, cut=None):
        self.cell, self.cut = cell, cut

    def __call__(self, kernel, measure, args, **k):
        def div(a, b):
            # x/0 is not used by the kernel
            if b == 0:
                return Fr(1)
            return a/b
        ckn.loopy_loop(kernel, measure, args, div=div, only=self.cell if 'qbar' in args else None,
                       hook=self.cut if 'qbar' in args else None)


def shims(h, **kw):
    if not h.symbolic:
        return []
    op2 = ckn.Op2()
    p = [(lm, 'op2', op2), (lm, 'assemble', assemble), (lm, 'LinearSolver', Solver), (lm, 'Function', SF),
         (vb, 'assemble', assemble), (vb, 'LinearSolver', Solver), (vb, 'Function', SF), (vb, 'par_loop', Hooked(**kw))]
    return p


def space(m, vec=False):
    from thetis.utility import get_functionspace
    if m.geometric_dimension == 2:
        return get_functionspace(m, 'DG', 1, vector=vec)
    return get_functionspace(m, 'DG', 1, 'DG', 1, vector=vec)


def work_function(V, zero=True):
    return SF(V, val=None if zero else np.array([Fr(7*i + 3) for i in range(V.dof_count)], dtype=object))


def make(h, V, **k):
    l = lm.VertexBasedP1DGLimiter(V, **k)
    if h.symbolic:
        S = l.P1DG
        S.get_work_function = lambda zero=True: work_function(S, zero)
        S.restore_work_function = lambda *a: None
    return l


def field(h, V, name='q', **kw):
    n = V.dof_dset.total_size if hasattr(V.dof_dset, 'total_size') else V.dof_count
    vs = V.value_size
    kw = kw or dict(lo=-10**9, hi=10**9)
    v = h.reals(name, n*vs, **kw)
    sh = (n, vs) if vs > 1 else (n,)
    if h.symbolic:
        return SF(V, val=np.array(v, dtype=object).reshape(sh))
    f = fd.Function(V)
    f.dat.data[:] = np.array([float(x) for x in v]).reshape(sh)
    return f


def nodal(h, f):
    return f.symdat.v if h.symbolic else np.array(f.dat.data_ro)


# ---- reference ----------------------------------------------------------------------------------------------------------------
def geometry(m, V):
    """cells as dof lists, per dof its vertex (position), cell mean weights, exterior facets as dof lists"""
    cells = ckn.nodes_of(V.cell_node_map(), None)
    vs = V if V.value_size == 1 else space(m)
    X = fd.Function(fd.VectorFunctionSpace(m, vs.ufl_element())).interpolate(fd.SpatialCoordinate(m)).dat.data_ro
    X = rats(np.round(X, 12))
    key = [tuple(x) for x in X]
    W, facets = [], []
    seen = {}
    for c in cells:
        n = len(c)
        if n == 3:
            W.append({i: Fr(1, 3) for i in c})
            fs = [(a, b) for k, a in enumerate(c) for b in c[k + 1:]]
        else:
            cols = {}
            for i in c:
                cols.setdefault(key[i][:2], []).append(i)
            cols = [sorted(q, key=lambda i: key[i][2]) for q in cols.values()]
            H = [key[t][2] - key[b][2] for b, t in cols]
            # integral of phi_a*H over the triangle: H linear
            w = {}
            tot = sum(H)/3
            for a, (b, t) in enumerate(cols):
                v = sum(H[k]*(Fr(1, 6) if k == a else Fr(1, 12)) for k in range(3))
                w[b] = w[t] = v/tot/2
            W.append(w)
            fs = [tuple(cols[a] + cols[b]) for a in range(3) for b in range(a)] + [tuple(q[0] for q in cols), tuple(q[1] for q in cols)]
        for f in fs:
            seen.setdefault(frozenset(key[i] for i in f), []).append(f)
    facets = [f[0] for f in seen.values() if len(f) == 1]
    return cells, key, W, facets


def vertices(m, P1):
    XC = fd.Function(fd.VectorFunctionSpace(m, P1.ufl_element())).interpolate(fd.SpatialCoordinate(m)).dat.data_ro
    return [tuple(rats(np.round(x, 12))) for x in XC]


def bounds(q, cells, key, W, facets):
    """per vertex the values that bound the limited field: means of the cells around it and of the boundary facets with it"""
    means = [sum(w*q[i] for i, w in W[k].items()) for k in range(len(cells))]
    at = {}
    for k, c in enumerate(cells):
        for i in c:
            at.setdefault(key[i], []).append(means[k])
    for f in facets:
        fm = sum(q[i] for i in f)/len(f)
        for i in f:
            at[key[i]].append(fm)
    return means, at


def ext(vals, f):
    r = vals[0]
    for v in vals[1:]:
        r = f(r, v)
    return r


def tol(h):
    return 0 if h.symbolic else 1e-9


# ---- harnesses ----------------------------------------------------------------------------------------------------------------
def bounding(name):
    """the bounds used at a vertex are the extremes of the means of all cells around it and of all boundary facets with it"""
    def run(h):
        m = mesh(name)
        V = space(m)
        with patched(*shims(h)):
            l = make(h, V)
            q = field(h, V)
            l.compute_bounds(q)
        v = nodal(h, q)
        cells, key, W, facets = geometry(m, V)
        means, at = bounds(v, cells, key, W, facets)
        kc = vertices(m, l.P1CG)
        hi, lo = nodal(h, l.max_field), nodal(h, l.min_field)
        cen = nodal(h, l.centroids)
        s = 1 + max([abs(float(x)) for x in v]) if not h.symbolic else 1
        for k in range(len(cells)):
            h.prove_eq(cen[k], means[k], f'mean of cell {k}', tol=tol(h)*s)
        for j, k in enumerate(kc):
            h.prove_eq(hi[j], ext(at[k], fmax) if h.symbolic else max(at[k]), f'upper bound at vertex {j}', tol=tol(h)*s)
            h.prove_eq(lo[j], ext(at[k], fmin) if h.symbolic else min(at[k]), f'lower bound at vertex {j}', tol=tol(h)*s)
    return run


for nm in MESH:
    ck.harness(f'bounds[{nm}]', bounding(nm), timeout_ms=30000)


def limited(name):
    """the limiting step on one cell with arbitrary admissible bounds"""
    def run(h):
        m = mesh(name)
        V = space(m)
        cells, key, W, facets = geometry(m, V)
        cell = h.choice('cell', range(len(cells))) if len(cells[0]) == 3 else 0
        with patched(*shims(h, cell=cell)):
            l = make(h, V)
            q = field(h, V, lo=-100, hi=100)
            P1 = l.max_field.function_space()
            nodes = ckn.nodes_of(P1.cell_node_map(), None)[cell]
            v = nodal(h, q).copy()
            mean = sum(w*v[i] for i, w in W[cell].items())
            hi = {j: h.real(f'hi{j}', lo=-100, hi=100) for j in nodes}
            lo = {j: h.real(f'lo{j}', lo=-100, hi=100) for j in nodes}
            for j in nodes:
                h.assume(hi[j] >= mean)
                h.assume(lo[j] <= mean)
                if h.symbolic:
                    l.max_field.symdat.v[j], l.min_field.symdat.v[j], l.centroids.symdat.v[cell] = hi[j], lo[j], mean
                else:
                    l.max_field.dat.data[j], l.min_field.dat.data[j], l.centroids.dat.data[cell] = hi[j], lo[j], mean
            l.apply_limiter(q)
        w = nodal(h, q)
        claims(h, v, w, cells[cell], W[cell], mean, [hi[j] for j in nodes], [lo[j] for j in nodes])
    return run


def claims(h, v, w, c, W, mean, hi, lo):
    t = 0 if h.symbolic else 1e-9
    h.prove_eq(sum(W[i]*w[i] for i in c), mean, 'cell mean', tol=t*100)
    ok = True
    for k, i in enumerate(c):
        h.prove_le(w[i], hi[k], f'upper bound {k}', tol=t*100)
        h.prove_ge(w[i], lo[k], f'lower bound {k}', tol=t*100)
        a, b = v[i] - mean, w[i] - mean
        h.prove_ge(a*b, 0, f'slope keeps its sign {k}', tol=t*1e4)
        h.prove_le(b*b, a*a, f'never steeper {k}', tol=t*1e4)


for nm in ('2 triangles', '4 triangles') + (('prisms',) if ck.thorough else ()):
    ck.harness(f'limit[{nm}]', limited(nm), timeout_ms=30000, expect_paths=4)


def inactive(name):
    """a field that respects its bounds, a constant for one, is left alone"""
    def run(h):
        m = mesh(name)
        V = space(m)
        cells, key, W, facets = geometry(m, V)
        cell = h.choice('cell', range(len(cells))) if len(cells[0]) == 3 else 0
        const = h.bool('constant')
        with patched(*shims(h, cell=cell)):
            l = make(h, V)
            q = field(h, V, lo=-100, hi=100)
            if const:
                c = h.real('c', lo=-100, hi=100)
                (q.symdat.v if h.symbolic else q.dat.data)[:] = c
            v = nodal(h, q).copy()
            if not const:
                means, at = bounds(v, cells, key, W, facets)
                for i in cells[cell]:
                    if h.symbolic:
                        h.assume(v[i] <= ext(at[key[i]], fmax))
                        h.assume(v[i] >= ext(at[key[i]], fmin))
                    else:
                        h.assume(v[i] <= max(at[key[i]]) + 1e-12 and v[i] >= min(at[key[i]]) - 1e-12)
            l.apply(q)
        w = nodal(h, q)
        for i in cells[cell]:
            h.prove_eq(w[i], v[i], f'node {i} unchanged', tol=tol(h)*100)
    return run


for nm in ('2 triangles', 'fan') if ck.thorough else ('2 triangles',):
    ck.harness(f'unchanged[{nm}]', inactive(nm), timeout_ms=30000, expect_paths=2)


def constant(name):
    def run(h):
        m = mesh(name)
        V = space(m)
        cells, key, W, facets = geometry(m, V)
        with patched(*shims(h)):
            l = make(h, V)
            q = field(h, V)
            c = h.real('c', lo=-10**9, hi=10**9)
            (q.symdat.v if h.symbolic else q.dat.data)[:] = c
            l.apply(q)
        for i, x in enumerate(nodal(h, q)):
            h.prove_eq(x, c, f'node {i}', tol=tol(h)*(1 + abs(float(c))) if not h.symbolic else 0)
    return run


for nm in MESH:
    ck.harness(f'constant[{nm}]', constant(nm))


def composed(name, vec):
    """every component is limited with the bounds of that component, into that component"""
    def run(h):
        m = mesh(name)
        V = space(m, vec)
        cells, key, W, facets = geometry(m, V)
        log = []
        uf = UF(h)
        with patched(*shims(h)):
            l = make(h, V, **h.choice('arguments', [{}, {'time_dependent_mesh': False}]))
            q = field(h, V, lo=-100, hi=100)
            v = nodal(h, q).copy()

            def al(self, f):
                log.append([list(nodal(h, x)) for x in (f, self.max_field, self.min_field, self.centroids)])
                a = f.symdat.v if h.symbolic else f.dat.data
                a[:] = [uf('lim', x, i) for i, x in enumerate(a)]
            with patched((vb.VertexBasedLimiter, 'apply_limiter', al)):
                l.apply(q)
            kc = vertices(m, l.P1CG)
        w = nodal(h, q)
        nc = V.value_size
        h.prove(len(log) == nc, 'each component is limited once')
        for k in range(min(nc, len(log))):
            comp = v[:, k] if vec else v
            out = w[:, k] if vec else w
            means, at = bounds(comp, cells, key, W, facets)
            for i in range(len(comp)):
                h.prove_eq(log[k][0][i], comp[i], f'limiting component {k}, node {i}')
                h.prove_eq(out[i], uf('lim', comp[i], i), f'result of component {k}, node {i}')
            for i in range(len(cells)):
                h.prove_eq(log[k][3][i], means[i], f'mean of component {k}, cell {i}', tol=tol(h)*100)
            for j, x in enumerate(kc):
                h.prove_eq(log[k][1][j], ext(at[x], fmax) if h.symbolic else max(at[x]), f'upper bound of component {k} at {j}',
                           tol=tol(h)*100)
                h.prove_eq(log[k][2][j], ext(at[x], fmin) if h.symbolic else min(at[x]), f'lower bound of component {k} at {j}',
                           tol=tol(h)*100)
    return run


for nm, vec in (('2 triangles', False), ('2 triangles', True), ('prisms', True), ('sloping prisms', True)):
    ck.harness(f'components[{nm}{", vector" if vec else ""}]', composed(nm, vec))


def moving(name):
    """on a moving mesh the means use the current cell sizes"""
    def run(h):
        m = mesh(name, fresh=True)
        V = space(m)
        with patched(*shims(h)):
            l = make(h, V)
            x = m.coordinates.dat.data
            s = h.choice('scale', [2., 0.5])
            x[:, 0] *= s
            x[:, -1] *= 1 + 0.25*x[:, 0] if m.geometric_dimension == 3 else 1.
            q = field(h, V)
            l.compute_bounds(q)
        v = nodal(h, q)
        cells, key, W, facets = geometry(m, V)
        means, at = bounds(v, cells, key, W, facets)
        sc = 1 if h.symbolic else 1 + max(abs(float(a)) for a in v)
        for k in range(len(cells)):
            h.prove_eq(nodal(h, l.centroids)[k], means[k], f'mean of cell {k}', tol=tol(h)*sc)
    return run


for nm in ('2 triangles', 'prisms'):
    ck.harness(f'moving[{nm}]', moving(nm), expect_paths=2)


def refuses(h):
    """spaces the limiter is not made for are refused"""
    m = mesh('2 triangles')
    V = h.choice('space', [fd.FunctionSpace(m, 'CG', 1), fd.FunctionSpace(m, 'DG', 2), fd.FunctionSpace(m, 'DG', 0),
                           fd.FunctionSpace(m, 'DG', 1), fd.FunctionSpace(mesh('prisms'), 'CG', 1)])
    want = V.ufl_element().family() == 'Discontinuous Lagrange' and V.ufl_element().degree() == 1
    try:
        lm.VertexBasedP1DGLimiter(V)
        ok = True
    except (AssertionError, TypeError):
        ok = False
    h.prove(ok == want, f'{V.ufl_element()}')


ck.harness('refuses', refuses, expect_paths=5)
ck.finish()
