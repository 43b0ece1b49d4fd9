"""C34: fields of the 2D and of the extruded mesh correspond along the water columns"""
from column_mesh import *
from symx.point import Point
from symx.consist import strong_and_flux
import thetis.solver as s3

ck = Check('C34', 'water columns')
TECHNIQUE = 'symbolic execution of the real C kernels over the real node maps of extruded meshes with arbitrary nodal values, and of the' \
            ' real weak forms at arbitrary integration points; z3 decides the correspondence for all values'
ck.encoded('utility.extrude_mesh_sigma (kernel)', 'utility.get_facet_mask', 'utility.compute_elem_height (kernel)',
           'utility3d.ExpandFunctionTo3d (kernel)', 'utility3d.SubFunctionExtractor (kernel)',
           'utility3d.Mesh3DConsistencyCalculator (kernel)', 'utility3d.SmagorinskyViscosity')
ck.bound('two prisms side by side, 1 to 3 layers; discontinuous and continuous spaces of degree 0 to 2, scalars and vectors of 2 and 3'
         ' components; stretching exponents 1, 2 and 3')
ck.assumed('H(div) spaces: the scaling with the layer height is a linear solve of Firedrake')
B = 10**4
_MM = {}


def mm(nl):
    if nl not in _MM:
        m2 = fd.UnitSquareMesh(1, 1)
        X = m2.coordinates.dat.data
        X[np.argmax(X.sum(axis=1))] += [0.5, 0.25]
        _MM[nl] = m2, fd.ExtrudedMesh(m2, nl, layer_height=1.0/nl)
    return _MM[nl]


_L = {}


def lay3(V3, V2, nl):
    """for every cell of every layer: (2D node, 3D node, relative height in the layer) of the nodes above each other"""
    key = (id(V3), id(V2))
    if key in _L:
        return _L[key][0]

    def xyz(V):
        S = V if V.value_size == 1 else fd.FunctionSpace(V.mesh(), V.sub(0).ufl_element())
        x = fd.SpatialCoordinate(V.mesh())
        return S, [fd.Function(S).interpolate(x[i]).dat.data_ro for i in range(V.mesh().geometric_dimension)]
    S2, c2 = xyz(V2)
    S3, c3 = xyz(V3)
    m3, m2 = S3.cell_node_map(), S2.cell_node_map()
    off = np.asarray(m3.offset)
    out = []
    for ci, row in enumerate(m3.values):
        at2 = {(round(c2[0][n], 6), round(c2[1][n], 6)): n for n in m2.values[ci]}
        for k in range(nl):
            for nd in np.asarray(row) + k*off:
                t = c3[2][nd]*nl - k
                out.append((ci, k, at2[round(c3[0][nd], 6), round(c3[1][nd], 6)], int(nd), round(float(t), 6)))
    _L[key] = out, V3, V2
    return out


# (name, 2D space, 3D space): family, degree, vertical family, degree, components
PAIRS = {'p1dg': ('DG', 1, 'DG', 1, 1, 1), 'p1': ('CG', 1, 'CG', 1, 1, 1), 'vector p1dg': ('DG', 1, 'DG', 1, 2, 3),
         'p0': ('DG', 0, 'DG', 1, 1, 1), 'p1dgxp2': ('DG', 1, 'DG', 2, 1, 1), 'p2': ('CG', 2, 'CG', 2, 1, 1),
         'p1dg x p1cg': ('DG', 1, 'CG', 1, 1, 1), '2 in 2': ('DG', 1, 'DG', 1, 2, 2)}
_V = {}


def pair(name, nl):
    if (name, nl) not in _V:
        hf, hd, vf, vd, d2, d3 = PAIRS[name]
        m2, m3 = mm(nl)
        k = lambda d: dict(vector=True, dim=d) if d > 1 else {}
        V2, V3 = get_functionspace(m2, hf, hd, **k(d2)), get_functionspace(m3, hf, hd, vf, vd, **k(d3))
        # firedrake uses data structures per space: keep the spaces and initialise their maps
        fd.Function(V2), fd.Function(V3)
        _V[name, nl] = V2, V3
    return _V[name, nl]


def ops(h):
    op = ckn.Op2()
    return ((u3, 'op2', op), (ut, 'op2', op)) if h.symbolic else ()


def fill(h, V, name):
    f = (NF if h.symbolic else fd.Function)(V, name=name)
    d = f.dat.data
    for i in np.ndindex(d.shape):
        d[i] = h.real(f'{name}{"_".join(map(str, i))}', lo=-B, hi=B)
    return f


def comps(d, n):
    return [d[n]] if d.ndim == 1 else list(d[n])


def data(h, f):
    return f.dat.data if h.symbolic else f.dat.data_ro.copy()


def expand(name, nl):
    def run(h):
        V2, V3 = pair(name, nl)
        f = fill(h, V2, 'f')
        g = (NF if h.symbolic else fd.Function)(V3, name='g')
        with patched(*ops(h)):
            u3.ExpandFunctionTo3d(f, g).solve()
        a, b = data(h, f), data(h, g)
        seen = set()
        for ci, k, n2, n3, t in lay3(V3, V2, nl):
            seen.add(n3)
            for c, (x, y) in enumerate(zip(comps(a, n2), comps(b, n3))):
                h.prove_eq(y, x, f'layer {k}, height {t}: the 2D value (component {c})', scale=B)
        h.prove(len(seen) == len(b), 'every node')
    return run


def extract(name, nl):
    """every choice of boundary and facet of the element"""
    def run(h):
        V2, V3 = pair(name, nl)
        bnd = h.choice('boundary', ['top', 'bottom', None])
        fac = h.choice('elem_facet', ['top', 'bottom', 'average', None])
        kw = {}
        if bnd is not None:
            kw['boundary'] = bnd
        if fac is not None:
            kw['elem_facet'] = fac
        g = fill(h, V3, 'g')
        f = (NF if h.symbolic else fd.Function)(V2, name='f')
        with patched(*ops(h)):
            u3.SubFunctionExtractor(g, f, **kw).solve()
        bnd = bnd or 'top'
        fac = fac or bnd
        a, b = data(h, f), data(h, g)
        lay = nl - 1 if bnd == 'top' else 0
        for n2 in range(len(a)):
            cells = {ci for ci, k, m2, n3, t in lay3(V3, V2, nl) if m2 == n2}
            got = {}
            for ci, k, m2, n3, t in lay3(V3, V2, nl):
                if m2 == n2 and k == lay and t in (0.0, 1.0) and ci == max(cells):
                    got[t] = comps(b, n3)
            for c, x in enumerate(comps(a, n2)):
                w = {'top': lambda: got[1.0][c], 'bottom': lambda: got[0.0][c], 'average': lambda: (got[0.0][c] + got[1.0][c])/2}[fac]()
                h.prove_eq(x, w, f'{fac} of the {bnd} layer at node {n2} (component {c})', scale=B)
    return run


def there_and_back(name, nl):
    def run(h):
        V2, V3 = pair(name, nl)
        bnd, fac = h.choice('boundary', ['top', 'bottom']), h.choice('elem_facet', ['top', 'bottom', 'average'])
        f = fill(h, V2, 'f')
        mk = NF if h.symbolic else fd.Function
        g, q = mk(V3, name='g'), mk(V2, name='q')
        with patched(*ops(h)):
            u3.ExpandFunctionTo3d(f, g).solve()
            u3.SubFunctionExtractor(g, q, boundary=bnd, elem_facet=fac).solve()
        a, b = data(h, f), data(h, q)
        for n in range(len(a)):
            for c, (x, y) in enumerate(zip(comps(a, n), comps(b, n))):
                h.prove_eq(y, x, f'node {n} component {c}', scale=B)
    return run


class MeshProxy:
    """the extruded mesh, with coordinates that may hold symbolic values"""
    def __init__(self, mesh):
        self.m = mesh
        self.coordinates = NF(mesh.coordinates.function_space(), val=np.vectorize(exact, otypes=[object])(mesh.coordinates.dat.data_ro))

    def __getattr__(self, k):
        return getattr(self.m, k)


def extrusion(nl, kind, degree=1):
    def run(h):
        m2, _ = mm(nl)
        V2 = get_functionspace(m2, 'CG', 1)
        bath = (NF if h.symbolic else fd.Function)(V2, name='bath')
        nn = len(bath.dat.data)
        b = [h.real(f'b{i}', lo=Fr(1, 10), hi=5000) for i in range(nn)]
        for i in range(nn):
            bath.dat.data[i] = b[i]
        kw = {}
        s = [1]*nn
        if kind == 'number':
            s = [h.choice('stretch', [1, 2, 3])]*nn
            kw['z_stretch_fact'] = float(s[0])
        if kind == 'field':
            s = [1 + i % 3 for i in range(nn)]
            f = (NF if h.symbolic else fd.Function)(V2, name='stretch')
            for i in range(nn):
                f.dat.data[i] = Fr(s[i]) if h.symbolic else float(s[i])
            kw['z_stretch_fact'] = f
        lim = None
        if kind == 'limits':
            lim = [h.real(f'lim{i}', lo=0, hi=1000) for i in range(h.choice('n limits', [1, nl + 1]))]
            kw['min_depth'] = lim
        pp = list(ops(h))
        if h.symbolic:
            pp += [(ut, 'Function', NF), (ut, 'ExtrudedMesh', lambda *a, **k: MeshProxy(fd.ExtrudedMesh(*a, **k)))]
            if lim is not None:
                import types as ty
                pp.append((ut, 'numpy', ObjNumpy()))
        with patched(*pp):
            m3 = ut.extrude_mesh_sigma(m2, nl, bath, **kw)
        X = m3.coordinates.dat.data if h.symbolic else m3.coordinates.dat.data_ro.copy()
        ref = fd.ExtrudedMesh(m2, nl, layer_height=1.0/nl)
        R = ref.coordinates.dat.data_ro
        c2 = m2.coordinates.dat.data_ro
        at = {(round(x, 6), round(y, 6)): i for i, (x, y) in enumerate(c2)}
        h.prove(len(X) == nn*(nl + 1), 'one node per column and level')
        cols = {}
        for n in range(len(R)):
            i = at[round(R[n, 0], 6), round(R[n, 1], 6)]
            lev = int(round(R[n, 2]*nl))
            sig = Fr(nl - lev, nl)
            for j in range(2):
                h.prove_eq(X[n, j], exact(c2[i, j]), f'horizontal coordinate of column {i}')
            z = -b[i]*sig**s[i]
            if lim is None:
                h.prove_eq(X[n, 2], z, f'column {i}, level {lev}: stretched depth', scale=5000)
                if lev == 0:
                    h.prove_eq(X[n, 2], -b[i], 'bottom at the bed', scale=5000)
                if lev == nl:
                    h.prove_eq(X[n, 2], 0, 'top at zero', scale=5000)
            else:
                h.prove_ge(X[n, 2], z, f'column {i}, level {lev}: not below the stretched depth', tol=1e-6)
                h.prove_le(X[n, 2], 0, f'column {i}, level {lev}: not above zero', tol=1e-6)
            cols[i, lev] = X[n, 2]
        for i in range(nn):
            for lev in range(nl):
                if lim is None:
                    h.prove(cols[i, lev] < cols[i, lev + 1], f'column {i}: order of the levels')
    return run


class ObjNumpy:
    """numpy whose arrays of ones can hold symbolic numbers"""
    def __getattr__(self, k):
        return getattr(np, k)

    def ones(self, shape, *a, **k):
        return np.full(shape, Fr(1), dtype=object)


class NA(np.ndarray):
    def min(self, *a, **k):
        return 0.0
    max = min


def world3(h, nl):
    m2, m3 = mm(nl)
    V = pair('p1dg', nl)[1]
    z = (NF if h.symbolic else fd.Function)(V, name='z')
    out = (NF if h.symbolic else fd.Function)(V, name='out')
    lay = lay3(V, pair('p1dg', nl)[0], nl)
    zz = {}
    for ci, k, n2, n3, t in lay:
        zz[ci, k, n2, t] = h.real(f'z{ci}.{k}.{n2}.{int(t)}', lo=-B, hi=B)
        z.dat.data[n3] = zz[ci, k, n2, t]
    return V, z, out, lay, zz, m3


def heights(nl):
    def run(h):
        V, z, out, lay, zz, m3 = world3(h, nl)
        with patched(*ops(h)):
            r = ut.compute_elem_height(z, out)
        h.prove(r is out, 'returns the field')
        d = data(h, out)
        for ci, k, n2, n3, t in lay:
            dz = zz[ci, k, n2, 1.0] - zz[ci, k, n2, 0.0]
            h.prove((d[n3] - dz)*(d[n3] + dz) == 0 if h.symbolic else abs(d[n3]**2 - dz**2) < 1e-6*(1 + dz**2), 'height of the edge')
            h.prove_ge(d[n3], 0, 'not negative')
    return run


def hcc(nl):
    def run(h):
        V, z, out, lay, zz, m3 = world3(h, nl)
        for ci, k, n2, n3, t in lay:
            if t == 0.0:
                h.assume(zz[ci, k, n2, 1.0] - zz[ci, k, n2, 0.0] >= Fr(1, 100))
        so = types.SimpleNamespace(fields=types.SimpleNamespace(hcc_metric_3d=out, z_coord_3d=z), mesh=m3, comm=types.SimpleNamespace(
            allreduce=lambda x, op=None: x), function_spaces=types.SimpleNamespace(P1DG=V))
        if h.symbolic:
            out.symdat.v = out.symdat.v.view(NA)
        with patched((u3, 'print_output', lambda *a: None), *ops(h)):
            c = u3.Mesh3DConsistencyCalculator(so)
            c.solve()
        d = data(h, out)
        for ci, k, n2, n3, t in lay:
            zs = [v for (a, b, n, e), v in zz.items() if (a, b, e) == (ci, k, t)]
            H = zz[ci, k, n2, 1.0] - zz[ci, k, n2, 0.0]
            R = d[n3]*H
            h.prove(z3.Or([raw(R) == raw(x - y) for x in zs for y in zs]) if h.symbolic else any(abs(R - (x - y)) < 1e-6*(1 + abs(R)) for x in zs for y in zs),
                    'a height difference of the facet over the height')
            for x in zs:
                for y in zs:
                    h.prove_ge(R, x - y, 'no difference is larger', tol=1e-6)
    return run


# -- Smagorinsky viscosity ---------------------------------------------------------------------------------------------------------------
_SM = {}


def smag(weak, deg=1):
    key = (weak, deg)
    if key not in _SM:
        m3 = mm(2)[1]
        uv = fd.Function(get_functionspace(m3, 'DG', deg, 'DG', deg, vector=True), name='uv')
        out = fd.Function(get_functionspace(m3, 'DG', 1, 'DG', 1), name='nu')
        cs = fd.Function(get_functionspace(m3, 'CG', 1), name='cs')
        hx = fd.Function(get_functionspace(m3, 'CG', 1), name='hx')
        mx = fd.Function(out.function_space(), name='max')
        nil = types.SimpleNamespace(solve=lambda: None)
        got = []
        P = u3.LinearVariationalProblem
        with patched((u3, 'LinearVariationalSolver', lambda p, *a, **k: got.append(p) or nil),
                     (u3, 'LinearVariationalProblem', lambda a, L, u, *r, **k: types.SimpleNamespace(a=a, L=L, u=u))):
            v = u3.SmagorinskyViscosity(uv, out, cs, hx, mx, weak_form=weak)
        _SM[key] = v, uv, out, cs, hx, got
    return _SM[key]


def smag_formula(weak):
    """the viscosity equation: test*trial on the left, test*(cs dx)^2 |S| on the right"""
    def run(h):
        v, uv, out, cs, hx, probs = smag(weak, 2)
        q = [p for p in probs if p.u is out]
        h.prove(len(q) == 1, 'one equation for the viscosity')
        q = q[0]
        m = mm(2)[1]
        with Point(h, m, 'dx') as p:
            p.coeff(uv, 'uv')
            p.coeff(cs, 'cs')
            p.coeff(hx, 'hx')
            w = fd.Function(out.function_space(), name='w')
            t = fd.Function(out.function_space(), name='t')
            p.coeff(w, 'w')
            p.coeff(t, 't')
            if weak:
                p.coeff(v.grad, 'g')
                g = lambda i, j: p.value(v.grad, None, 2*i + j)
            else:
                g = lambda i, j: p.grad(uv, None, i, j)
            dt, ds = g(0, 0) - g(1, 1), g(0, 1) + g(1, 0)
            h.assume(dt*dt + ds*ds > Fr(1, 10**6))
            te, tr = q.a.arguments()
            h.prove_eq(p.integral(q.a, {te: w, tr: t}), p.value(w)*p.value(t), 'mass', scale=1e3)
            nu = p.integral(q.L, {q.L.arguments()[0]: w})
            C = p.value(cs)*p.value(hx)
            h.prove_eq(nu*nu, (p.value(w)*C*C)*(p.value(w)*C*C)*(dt*dt + ds*ds), 'square of (cs dx)^2 |S|', scale=1e6, canon=True)
            h.prove_ge(nu*p.value(w), 0, 'not negative', tol=1e-9)
    return run


def smag_weak_cell(h):
    v, uv, out, cs, hx, probs = smag(True, 2)
    q = [p for p in probs if p.u is v.grad][0]
    m = mm(2)[1]
    te = q.L.arguments()[0]
    with Point(h, m, 'dx') as p:
        p.coeff(uv, 'uv')
        SB = strong_and_flux(q.L, te, fd.SpatialCoordinate(m), 3)
        for i in range(2):
            for j in range(2):
                h.prove_eq(p.expr(SB[2*i + j][0]), p.grad(uv, None, i, j), f'd u{i}/d x{j}', scale=1e3)


def smag_weak_facet(kind):
    def run(h):
        v, uv, out, cs, hx, probs = smag(True, 2)
        q = [p for p in probs if p.u is v.grad][0]
        m = mm(2)[1]
        te = q.L.arguments()[0]
        with Point(h, m, kind) as p:
            p.coeff(uv, 'uv')
            w = fd.Function(v.grad.function_space(), name='w')
            p.coeff(w, 'w')
            if p.interior:
                p.same_on_both_sides(uv)
            tot = p.integral(q.L, {te: w})
            for c, (S, Bf) in enumerate(strong_and_flux(q.L, te, fd.SpatialCoordinate(m), 3)):
                for sd, sg in ((('+', 1), ('-', -1)) if p.interior else ((None, 1),)):
                    for j in range(3):
                        tot = tot + sg*p.value(w, sd, c)*p.n[j]*p.expr(Bf[j], sd)
            h.prove_eq(tot, 0, 'no left-over for a continuous velocity', scale=1e4)
    return run


class MaskArr(np.ndarray):
    """nodal values; comparison gives a mask that may be used as an index"""
    def __lt__(self, o):
        return np.array([bool(a < b) for a, b in zip(self, np.broadcast_to(np.asarray(o, dtype=object), self.shape))])

    def __gt__(self, o):
        return np.array([bool(a > b) for a, b in zip(self, np.broadcast_to(np.asarray(o, dtype=object), self.shape))])


def smag_clip(h):
    n = 2
    weak = h.choice('weak', [True, False])
    raws, mxs = [h.real(f'nu{i}', lo=-10, hi=10) for i in range(n)], [h.real(f'max{i}', lo=Fr(1, 100), hi=5) for i in range(n)]
    mn = h.real('min', lo=0, hi=Fr(1, 100))
    mk = lambda v: np.array(v, dtype=object if h.symbolic else float).view(MaskArr)
    A = mk([0.0]*n)
    order = []

    def setn():
        order.append('nu')
        for i in range(n):
            A[i] = raws[i]
    s = object.__new__(u3.SmagorinskyViscosity)
    fld = lambda a: types.SimpleNamespace(dat=types.SimpleNamespace(data=a, data_ro=a))
    s.output, s.max_val, s.min_val, s.weak_form = fld(A), fld(mk(mxs)), mn, weak
    s.weak_grad_solver, s.solver = types.SimpleNamespace(solve=lambda: order.append('grad')), types.SimpleNamespace(solve=setn)
    s.solve()
    h.prove(order == (['grad'] if weak else []) + ['nu'], 'gradients before viscosity')
    for i in range(n):
        h.prove_ge(A[i], mn, 'not below the minimum', tol=1e-12)
        h.prove_le(A[i], mxs[i], 'not above the maximum', tol=1e-12)
        if bool(raws[i] >= mn) and bool(raws[i] <= mxs[i]):
            h.prove_eq(A[i], raws[i], 'kept within the bounds')


for nm in PAIRS:
    ck.harness(f'expand[{nm},2]', expand(nm, 2))
    ck.harness(f'extract[{nm},2]', extract(nm, 2), max_paths=40)
for nm in ('vector p1dg', 'p1', 'p1dg x p1cg'):
    ck.harness(f'there and back[{nm},2]', there_and_back(nm, 2), max_paths=40)
ck.harness('expand[p1dg,1]', expand('p1dg', 1))
ck.harness('extract[p1dg,1]', extract('p1dg', 1), max_paths=40)
ck.harness('expand[p1dg,3]', expand('p1dg', 3))
ck.harness('extract[p1dg,3]', extract('p1dg', 3), max_paths=40)
for nl in (1, 2, 3):
    for kind in ('plain', 'number', 'field', 'limits'):
        ck.harness(f'extrusion[{kind},{nl}]', extrusion(nl, kind), max_paths=200)
    ck.harness(f'heights[{nl}]', heights(nl), max_paths=200)
for nl in (1, 2):
    ck.harness(f'hcc[{nl}]', hcc(nl), max_paths=200)
for weak in (True, False):
    ck.harness(f'smagorinsky[{"weak" if weak else "strong"}]', smag_formula(weak))
ck.harness('smagorinsky gradient', smag_weak_cell)
for kind in ('dS_v', 'ds_v', 'dS_h', 'ds_t', 'ds_b'):
    ck.harness(f'smagorinsky gradient[{kind}]', smag_weak_facet(kind))
ck.harness('smagorinsky bounds', smag_clip, max_paths=200)
ck.finish()
