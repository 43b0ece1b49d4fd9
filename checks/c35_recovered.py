"""C35: recovered diagnostics and measures of the mesh"""
from column_mesh import *
from symx.point import Point
from symx.consist import strong_and_flux
import thetis.diagnostics as dg
import ufl
from firedrake import dx, ds, dS, inner, dot, grad, jump, avg

ck = Check('C35', 'recovered diagnostics')
TECHNIQUE = 'symbolic execution of the real weak forms and expressions at arbitrary points and of the real C kernels over arbitrary' \
            ' mesh coordinates; z3 decides agreement with the definitions for all values'
ck.encoded('diagnostics.VorticityCalculator2D', 'diagnostics.HessianRecoverer2D', 'diagnostics.GradientRecoverer2D',
           'diagnostics.KineticEnergyCalculator', 'diagnostics.DualWeightedResidual2D', 'utility.form2indicator',
           'utility.get_facet_areas', 'utility.get_minimum_angles_2d (kernel)', 'utility.get_cell_widths_2d (kernel)',
           'utility.anisotropic_cell_size', 'utility.get_horizontal_elem_size_2d', 'utility.beta_plane_coriolis_function',
           'utility.compute_boundary_length', 'utility.tensor_jump')
ck.bound('arbitrary values, gradients and second derivatives at one point; facets with arbitrary normals; triangles with arbitrary'
         ' vertex positions and edge lengths')
ck.assumed('the linear solves and interpolations of Firedrake')
B = 10**3
NIL = types.SimpleNamespace(solve=lambda: None)
M = fd.UnitSquareMesh(1, 1)       # one interior facet, two cells of different size
M.coordinates.dat.data[np.argmax(M.coordinates.dat.data_ro.sum(axis=1))] += [0.5, 0.25]


def captured(mod, f):
    got = []
    with patched((mod, 'LinearVariationalSolver', lambda p, *a, **k: got.append(p) or NIL),
                 (mod, 'LinearVariationalProblem', lambda a, L, u, *r, **k: types.SimpleNamespace(a=a, L=L, u=u))):
        o = f()
    return o, got


def captured_solve(f):
    """the linear equations handed to Firedrake's solve"""
    got = []
    with patched((ut, 'solve', lambda eq, u, *a, **k: got.append(types.SimpleNamespace(a=eq.lhs, L=eq.rhs, u=u)))):
        o = f()
    return o, got


_C = {}


def cached(key, f):
    if key not in _C:
        _C[key] = f()
    return _C[key]


def fun(fam, deg, name, **k):
    return fd.Function(get_functionspace(M, fam, deg, **k), name=name)


# -- vorticity ---------------------------------------------------------------------------------------------------------------------------
def vort(fam='DG', deg=2):
    def make():
        uv = fun(fam, deg, 'uv', vector=True)
        w = fun('CG', 1, 'vorticity')
        o, got = captured(dg, lambda: dg.VorticityCalculator2D(uv, w))
        assert len(got) == 1
        return uv, w, o, got[0]
    return cached(('vort', fam, deg), make)


def vort_cell(fam):
    def run(h):
        uv, w, o, q = vort(fam)
        te, tr = q.a.arguments()
        h.prove(q.u is w, 'result goes to the vorticity field')
        with Point(h, M, 'dx') as p:
            p.coeff(uv, 'uv')
            v, u = fun('CG', 1, 'v'), fun('CG', 1, 'u')
            h.prove_eq(p.integral(q.a, {te: v, tr: u}), p.value(v)*p.value(u), 'mass', scale=B)
            (S, Bf), = strong_and_flux(q.L, q.L.arguments()[0], fd.SpatialCoordinate(M), 2)
            h.prove_eq(p.expr(S), p.grad(uv, None, 0, 1) - p.grad(uv, None, 1, 0), 'u_y - v_x', scale=B)
    return run


def vort_facet(kind, fam):
    def run(h):
        uv, w, o, q = vort(fam)
        te = q.L.arguments()[0]
        with Point(h, M, kind) as p:
            p.coeff(uv, 'uv')
            v = fun('CG', 1, 'v')
            p.coeff(v, 'v')
            for a in q.a.integrals():
                h.prove(a.integral_type() == 'cell', 'mass only')
            cont = h.choice('continuous velocity', [True, False]) if p.interior else True
            if p.interior and cont:
                p.same_on_both_sides(uv)
            tot = p.integral(q.L, {te: v})
            (S, Bf), = strong_and_flux(q.L, te, fd.SpatialCoordinate(M), 2)
            for sd, sg in ((('+', 1), ('-', -1)) if p.interior else ((None, 1),)):
                for j in range(2):
                    tot = tot + sg*p.value(v, sd)*p.n[j]*p.expr(Bf[j], sd)
            if not cont:
                # a jump of the velocity counts with its tangential part: v (n x [u])
                d = [p.value(uv, '+', i) - p.value(uv, '-', i) for i in range(2)]
                tot = tot - p.value(v, '+')*(d[1]*p.n[0] - d[0]*p.n[1])
            h.prove_eq(tot, 0, 'left-over', scale=B)
    return run


# -- Hessian -----------------------------------------------------------------------------------------------------------------------------
def hess(with_grad=True):
    def make():
        f = fun('CG', 2, 'f')
        Hf = fun('CG', 1, 'hessian', tensor=True)
        g = fun('CG', 1, 'gradient', vector=True) if with_grad else None
        o, got = captured(dg, lambda: dg.HessianRecoverer2D(f, Hf, gradient_2d=g))
        assert len(got) == 1
        return f, Hf, g, o, got[0]
    return cached(('hess', with_grad), make)


def hess_cell(h):
    f, Hf, g, o, q = hess(h.choice('gradient field given', [True, False]))
    te, tr = q.a.arguments()
    with Point(h, M, 'dx') as p:
        p.coeff(f, 'f')
        s = fd.Function(q.u.function_space(), name='s')
        p.coeff(s, 's')
        x = fd.SpatialCoordinate(M)
        F = ufl.replace(q.a, {tr: s}) - q.L
        SB = strong_and_flux(F, te, x, 2)
        for i in range(2):
            h.prove_eq(p.expr(SB[i][0]), p.value(s, None, i) - p.grad(f, None, 0, i), f'gradient component {i}', scale=B)
        for i in range(2):
            for j in range(2):
                h.prove_eq(p.expr(SB[2 + 2*i + j][0]), p.value(s, None, 2 + 2*i + j) - p.grad(s, None, i, j),
                           f'second derivative {i}{j}', scale=B)


def hess_facet(kind):
    def run(h):
        f, Hf, g, o, q = hess()
        te, tr = q.a.arguments()
        with Point(h, M, kind) as p:
            p.coeff(f, 'f')
            s, t = fd.Function(q.u.function_space(), name='s'), fd.Function(q.u.function_space(), name='t')
            p.coeff(s, 's')
            p.coeff(t, 't')
            F = ufl.replace(q.a, {tr: s}) - q.L
            tot = p.integral(F, {te: t})
            for c, (S, Bf) in enumerate(strong_and_flux(F, te, fd.SpatialCoordinate(M), 2)):
                for sd, sg in ((('+', 1), ('-', -1)) if p.interior else ((None, 1),)):
                    for j in range(2):
                        tot = tot + sg*p.value(t, sd, c)*p.n[j]*p.expr(Bf[j], sd)
            h.prove_eq(tot, 0, 'no left-over', scale=B)
    return run


class Slot:
    """a field that remembers what it was given"""
    def __init__(self, fs, ufl_=None):
        self.fs, self.got = fs, None

    def function_space(self):
        return self.fs

    def assign(self, v):
        self.got = v
        return self
    interpolate = project = assign


def hess_result(h):
    given = h.choice('gradient field given', [True, False])
    f, Hf, g, o, q = hess(given)
    k = 4 + (2 if given else 0)
    vals = [h.real(f'r{i}', lo=-B, hi=B) for i in range(6)]
    done = []
    s = object.__new__(dg.HessianRecoverer2D)
    put = lambda n, v: object.__setattr__(s, n, v)
    H, G = Slot(None), Slot(None) if given else None
    parts = [fd.Function(x.function_space()) for x in q.u.subfunctions]
    if h.symbolic:
        parts = [Arr(np.zeros(2, dtype=object)), Arr(np.zeros(4, dtype=object))]

    def solve():
        done.append(1)
        if h.symbolic:
            parts[0].v[:], parts[1].v[:] = vals[:2], vals[2:]
        else:
            parts[0].dat.data[:] = [float(v) for v in vals[:2]]
            parts[1].dat.data[:] = np.array([float(v) for v in vals[2:]]).reshape(2, 2)
    for n, v in dict(solver=types.SimpleNamespace(solve=solve), hessian_2d=H, gradient_2d=G, _gradient=parts[0], _hessian=parts[1]).items():
        s.__dict__[n] = v
    s.solve()
    h.prove(len(done) == 1, 'solved once')
    sp = [x.function_space() for x in q.u.subfunctions]
    rd = lambda o: list(o.v) if h.symbolic else list(fd.Function(sp[len(o.ufl_shape) - 1]).interpolate(o).dat.data_ro[0].ravel())
    h.prove(H.got is not None and (G is None or G.got is not None), 'Hessian and gradient are set')
    if H.got is None or G is not None and G.got is None:
        return
    for i, v in enumerate(rd(H.got)):
        h.prove_eq(v, vals[2 + i], f'Hessian component {i}', scale=B)
    if given:
        for i, v in enumerate(rd(G.got)):
            h.prove_eq(v, vals[i], f'gradient component {i}', scale=B)
    # the parts are those of the solution
    h.prove(o._gradient.function_space().value_size == 2 and o._hessian.function_space().value_size == 4, 'the parts of the solution')
    h.prove(o._gradient.dat is q.u.subfunctions[0].dat and o._hessian.dat is q.u.subfunctions[1].dat, 'parts of the solution that is solved for')


def gradient(h):
    f = fun('CG', 2, 'f')
    V = get_functionspace(M, 'CG', 1, vector=True)
    G = Slot(V)
    o = dg.GradientRecoverer2D(f, None)
    o.gradient_2d = G
    calls = []

    def proj(e, V, *a, **k):
        calls.append((e, V))
        return e
    with patched((dg, 'project', proj)):
        o()
    e = G.got
    h.prove(e is not None and all(W is V for _, W in calls), 'projected on the space of the result')
    with Point(h, M, 'dx') as p:
        p.coeff(f, 'f')
        for i in range(2):
            h.prove_eq(p.expr(e[i]), p.grad(f, None, 0, i), f'component {i}', scale=B)


# -- kinetic energy ----------------------------------------------------------------------------------------------------------------------
def kinetic(h):
    """both ways of evaluating, and again after the velocity has changed"""
    proj = h.choice('project', [False, True])
    hor = h.choice('horizontal', [False, True])
    dim = h.choice('components', [2, 3])
    dens = h.choice('density', ['default', 'given'])
    V = get_functionspace(M, 'CG', 1, **(dict(vector=True, dim=dim) if dim == 3 else dict(vector=True)))
    uv = fd.Function(V, name='uv')
    kw = {}
    rho = h.real('rho', lo=500, hi=2000)
    c = fd.Constant(1.0)
    if dens == 'given':
        kw['density'] = c
    with Point(h, M, 'dx') as p:
        p.coeff(uv, 'uv')
        if dens == 'given':
            p.constant(c, 'rho')
            rho = p.consts[id(c)][1]
        else:
            rho = 1000.0
        u = [p.value(uv, None, i) for i in range(dim)]
        want = sum((x*x for x in (u[:2] if hor else u)), start=0)/2*rho
        if h.symbolic:
            ke = Slot('space')

            class I:
                def __init__(self, e):
                    self.e = e

                def assemble(self, *a, tensor=None, **k):
                    if tensor is not None:
                        tensor.assign(self.e)
                        return tensor
                    return self.e          # a new field: the caller has to store it

                def interpolate(self, *a, output=None, **k):
                    return self.assemble(tensor=output)

            class P:
                def __init__(self, e, out, *a, **k):
                    self.e, self.out = e, out

                def project(self):
                    self.out.assign(self.e)
                    return self.out
            # a space is only passed on
            with patched((dg, 'interpolate', lambda e, V, *a, **k: I(e)), (dg, 'get_interpolator', lambda i, *a, **k: i),
                         (dg, 'Projector', P), (dg, 'assemble', lambda i, *a, tensor=None, **k: i.assemble(tensor=tensor))):
                o = dg.KineticEnergyCalculator(uv, ke, project=proj, horizontal=hor, **kw)
                o()
                ke.got = None
                o()
            h.prove(ke.got is not None, 'the result is stored')
            h.prove_eq(p.expr(ke.got), want, 'half the density times the squared speed', scale=1e6)
        else:
            ke = fd.Function(get_functionspace(M, 'DG', 1))
            o = dg.KineticEnergyCalculator(uv, ke, project=proj, horizontal=hor, **kw)
            o()
            for i in range(dim):
                uv.dat.data[:, i] = float(u[i])
            ke.assign(-1.0)     # not what the kinetic energy can be
            o()
            for v in ke.dat.data_ro[:3]:
                h.prove_eq(v, want, 'the result is stored', scale=1e6)


# -- error indicators --------------------------------------------------------------------------------------------------------------------
def ind_form():
    def make():
        f, g, w = fun('DG', 1, 'f'), fun('DG', 1, 'g'), fun('CG', 1, 'w')
        n = fd.FacetNormal(M)
        F = f*g*dx + w**2*dx + f*w*ds(1) + g*dot(grad(w), n)*ds(2) + 3*w*ds + jump(f)*avg(g)*dS + f('+')*g('-')*dS
        ind, got = captured_solve(lambda: ut.form2indicator(F))
        assert len(got) == 1
        return f, g, w, F, ind, got[0]
    return cached('ind', make)


def indicator(kind, sub=None):
    def run(h):
        f, g, w, F, ind, q = ind_form()
        te, tr = q.a.arguments()
        h.prove(q.u is ind and ind.function_space().ufl_element().degree() == 0, 'a number per cell')
        h.prove(all(i.integral_type() == 'cell' for i in q.a.integrals()), 'one equation per cell')
        with Point(h, M, kind, **({'subdomain': sub} if sub else {})) as p:
            for k in (f, g, w):
                p.coeff(k)
            t, u = fun('DG', 0, 't'), fun('DG', 0, 'u')
            p.coeff(t, 't')
            p.coeff(u, 'u')
            if not p.facet:
                # |K| x_K = |K| * sum: an indicator equal to the integral over the cell
                h.prove_eq(p.integral(q.a, {te: t, tr: u}), p.value(t)*p.value(u), 'one equation per cell', scale=B)
            I = p.integral(F)
            V = fd.CellVolume(M)
            for sd in p.sides:
                # only the cell of this side
                tot = p.integral(q.L, {te: t})
                if p.interior:
                    o = '-' if sd == '+' else '+'
                    h.prove_eq(tot, I*(p.value(t, sd)*p.expr(V, sd) + p.value(t, o)*p.expr(V, o)), 'counted for both cells', scale=B)
                else:
                    h.prove_eq(tot, I*p.value(t)*p.expr(V), 'counted for its cell', scale=B)
    return run


class Mapping(dict):
    def __getattr__(self, k):
        return self[k]


def dwr(h):
    """the residual of the equation that is stepped, with the test function replaced"""
    kind = h.choice('equation', ['swe', 'tracer'])
    coupled = h.choice('coupled', [False, True])
    typ = h.choice('type', ['SteadyState', 'CrankNicolson'])
    two = h.choice('tracers', [1, 2]) if kind == 'tracer' else 1
    V = cached('V2', lambda: get_functionspace(M, 'DG', 1, vector=True)*get_functionspace(M, 'DG', 1))
    Q = get_functionspace(M, 'DG', 1)
    fs = types.SimpleNamespace(V_2d=V, Q_2d=Q)

    def form(W, nm):
        s = fd.Function(W, name=nm)
        t = fd.TestFunction(W)
        n = fd.FacetNormal(M)
        return s, (inner(s, t)*dx + inner(grad(s), grad(t))*dx - inner(dot(grad(s), n), t)*ds - inner(avg(s), jump(t))*dS)
    s0, F0 = cached('F0', lambda: form(V, 's0'))
    s1, F1 = cached('F1', lambda: form(Q, 's1'))
    s2, F2 = cached('F2', lambda: form(Q, 's2'))
    ns = types.SimpleNamespace
    tr = Mapping({'swe2d': ns(F=F0), 'tracer_2d': ns(F=F1), 'other_2d': ns(F=F2)})
    ts = ns(timesteppers=tr) if coupled or kind == 'tracer' else ns(F=F0)
    opts = ns(swe_timestepper_type=typ if kind == 'swe' else 'SSPRK33', tracer_timestepper_type=typ if kind == 'tracer' else 'SSPRK33')
    so = ns(mesh2d=M, timestepper=ts, function_spaces=fs, options=opts)
    W = V if kind == 'swe' else Q
    dual = fd.Function(W, name='dual')
    forms = []
    with patched((dg, 'form2indicator', lambda F: forms.append(F) or 'indicator')):
        try:
            if kind == 'swe':
                o = dg.ShallowWaterDualWeightedResidual2D(so, dual)
                s, F = s0, F0
            else:
                lab = 'tracer_2d' if two == 1 else 'other_2d'
                o = dg.TracerDualWeightedResidual2D(so, dual, **({} if two == 1 else {'label': lab}))
                s, F = (s1, F1) if two == 1 else (s2, F2)
        except NotImplementedError:
            h.prove(False, f'{typ} is accepted')
            return
        o()
    h.prove(len(forms) == 1 and o.error == 'indicator', 'indicator of the residual is stored')
    t = fd.TestFunction(W)
    for k in ('dx', 'ds', 'dS'):
        with Point(h, M, k, name='p' + k) as p:
            for f_, nm in ((s, 'sol' + k), (dual, 'dual' + k)):
                p.coeff(f_, nm)
            h.prove_eq(p.integral(forms[0]), p.integral(F, {t: dual}), f'residual tested with the dual solution ({k})', scale=B)
    # refusals
    for bad in ('SSPRK33', 'ForwardEuler', 'DIRK22'):
        setattr(opts, 'swe_timestepper_type' if kind == 'swe' else 'tracer_timestepper_type', bad)
        try:
            (dg.ShallowWaterDualWeightedResidual2D if kind == 'swe' else dg.TracerDualWeightedResidual2D)(so, dual)
            h.prove(False, 'other time integrators are refused')
        except NotImplementedError:
            pass
    setattr(opts, 'swe_timestepper_type' if kind == 'swe' else 'tracer_timestepper_type', typ)
    N = cached('othermesh', lambda: fd.UnitSquareMesh(1, 1))
    od = fd.Function(get_functionspace(N, 'DG', 1))
    ok = False
    try:
        (dg.ShallowWaterDualWeightedResidual2D if kind == 'swe' else dg.TracerDualWeightedResidual2D)(so, od)
    except ValueError:
        ok = True
    h.prove(ok, 'a dual solution on another mesh is refused')


# -- measures of the mesh ----------------------------------------------------------------------------------------------------------------
def elem_size(h):
    def make():
        s = fun('CG', 1, 's')
        return s, captured_solve(lambda: ut.get_horizontal_elem_size_2d(s))[1]
    s, got = cached('es', make)
    q, = got
    te, tr = q.a.arguments()
    h.prove(q.u is s, 'result goes to the field')
    with Point(h, M, 'dx') as p:
        t, u = fun('CG', 1, 't'), fun('CG', 1, 'u')
        p.coeff(t, 't')
        p.coeff(u, 'u')
        h.prove_eq(p.integral(q.a, {te: t, tr: u}), p.value(t)*p.value(u), 'mass', scale=B)
        r = p.integral(q.L, {te: t})
        h.prove_eq(r*r, p.value(t)*p.value(t)*p.expr(fd.CellVolume(M)), 'root of the area, squared', scale=B)
        h.prove_ge(r*p.value(t), 0, 'positive root', tol=1e-9)


def facet_areas(kind):
    def run(h):
        A, got = cached('fa', lambda: captured_solve(lambda: ut.get_facet_areas(M)))
        q, = got
        te, tr = q.a.arguments()
        h.prove(q.u is A, 'result is returned')
        with Point(h, M, kind) as p:
            # values on the facet itself
            W = get_functionspace(M, 'CG', 1)
            t, u = fd.Function(W, name='t'), fd.Function(W, name='u')
            p.coeff(t, 't')
            p.coeff(u, 'u')
            h.prove_eq(p.integral(q.a, {te: t, tr: u})*p.expr(fd.FacetArea(M), '+' if p.interior else None)*p.value(t),
                       p.integral(q.L, {te: t})*p.value(t)*p.value(u), 'length of the edge', scale=B)
            sq = p.integral(q.a, {te: t, tr: u})
            h.prove_eq(sq, p.value(t)*p.value(u), 'mass', scale=B)
    return run


def angles(h):
    m2 = M
    T = cached('trace', lambda: fd.FunctionSpace(M, 'HDiv Trace', 0))
    E = (NF if h.symbolic else fd.Function)(T, name='edges')
    n = len(E.dat.data)
    mp = T.cell_node_map().values
    # three arbitrary edges for the first cell; an isosceles triangle elsewhere
    vals = [Fr(1)]*n
    abc = [h.real(f'edge{i}', lo=Fr(1, 10), hi=50) for i in range(3)]
    for i in range(3):
        vals[mp[0][i]] = abc[i]
    h.assume(abc[0] + abc[1] > abc[2])
    h.assume(abc[0] + abc[2] > abc[1])
    h.assume(abc[1] + abc[2] > abc[0])
    for i in range(n):
        E.dat.data[i] = vals[i] if h.symbolic else float(vals[i])
    pp = list(ops(h)) + [(ut, 'get_facet_areas', lambda m: E)]
    if h.symbolic:
        pp.append((ut, 'Function', NF))
        ckn.Fn.table['acos'] = lambda x: x
    with patched(*pp):
        r = ut.get_minimum_angles_2d(m2)
    d = data(h, r)
    i0 = r.function_space().cell_node_map().values[0][0]
    c = d[i0] if h.symbolic else math.cos(d[i0])
    cs = [(abc[j]*abc[j] + abc[k]*abc[k] - abc[i]*abc[i])/(2*abc[j]*abc[k]) for i, j, k in ((0, 1, 2), (1, 2, 0), (2, 0, 1))]
    h.prove(z3.Or(*[raw(c)*raw(2*abc[j]*abc[k]) == raw(abc[j]*abc[j] + abc[k]*abc[k] - abc[i]*abc[i])
                    for i, j, k in ((0, 1, 2), (1, 2, 0), (2, 0, 1))]) if h.symbolic else min(abs(c - x) for x in cs) < 1e-9,
            'an angle of the triangle')
    for x, nm in zip(cs, 'abc'):
        h.prove_ge(c, x, f'not larger than the angle opposite of edge {nm}', tol=1e-9)


def ops(h):
    op = ckn.Op2()
    return ((u3, 'op2', op), (ut, 'op2', op)) if h.symbolic else ()


def data(h, f):
    return f.dat.data if h.symbolic else f.dat.data_ro.copy()


class Mesh2:
    def __init__(self, mesh, X):
        self.m = mesh
        self.coordinates = X

    def __getattr__(self, k):
        return getattr(self.m, k)


def widths(h):
    m2 = cached('wm', lambda: fd.UnitSquareMesh(1, 1))
    V = m2.coordinates.function_space()
    c0 = m2.coordinates.dat.data_ro.copy()
    xs = [[h.real(f'x{i}{j}', lo=-B, hi=B) for j in range(2)] for i in range(len(c0))]
    cn = V.cell_node_map().values
    if h.symbolic:
        X = NF(V, val=np.array(xs, dtype=object))
        mesh = Mesh2(m2, X)
        pp = list(ops(h)) + [(ut, 'Function', NF), (ut, 'VectorFunctionSpace', lambda m, *a, **k: fd.VectorFunctionSpace(m2, *a, **k)),
                             (ut, 'FunctionSpace', lambda m, *a, **k: fd.FunctionSpace(m2, *a, **k))]
    else:
        mesh = m2
        m2.coordinates.dat.data[:] = np.array([[float(v) for v in r] for r in xs])
        pp = []
    with patched(*pp):
        r = ut.get_cell_widths_2d(mesh)
    d = data(h, r)
    if not h.symbolic:
        m2.coordinates.dat.data[:] = c0
    mp = r.function_space().cell_node_map().values
    for ci, row in enumerate(cn):
        for j in range(2):
            w = d[mp[ci][0], j]
            df = [xs[a][j] - xs[b][j] for a in row for b in row if a != b]
            h.prove(z3.Or(*[raw(w) == raw(q) for q in df]) if h.symbolic else min(abs(w - q) for q in df) < 1e-9, f'a difference of direction {j}')
            for q in df:
                h.prove_ge(w, q, f'no difference in direction {j} is larger', tol=1e-9)


class Interp:
    """Function that remembers the expression it was given"""
    last = None

    def __init__(self, V, **k):
        self.V = V

    def function_space(self):
        return self.V

    def interpolate(self, e):
        Interp.last = e
        return self


def aniso(h):
    """smallest singular value s of the Jacobian: s^4 - |J|^2 s^2 + det(J)^2 = 0, smaller root"""
    J = cached('J', lambda: fun('DG', 0, 'J', tensor=True))
    with patched((ut, 'Jacobian', lambda m: J), (ut, 'Function', Interp)):
        o = ut.anisotropic_cell_size(M)
    e = Interp.last
    h.prove(isinstance(o, Interp), 'the field is returned')
    with Point(h, M, 'dx') as p:
        p.coeff(J, 'J')
        j = [p.value(J, None, i) for i in range(4)]
        for q in j:
            h.assume(q*q <= 10**4)
        det = j[0]*j[3] - j[1]*j[2]
        h.assume(det >= Fr(1, 100))
        I1 = j[0]*j[0] + j[1]*j[1] + j[2]*j[2] + j[3]*j[3]
        s = p.expr(e)
        h.prove_ge(s, 0, 'not negative', tol=1e-9)
        s2 = s*s
        h.prove_le(s2, I1/2, 'the smaller of the two', tol=1e-6)
        # the root is regularised with the machine epsilon: (2 s^2 - I1)^2 = I1^2 - 4 det^2 + eps
        eps = core.frac(float(np.finfo(float).eps))
        h.prove_eq((2*s2 - I1)*(2*s2 - I1), I1*I1 - 4*det*det + eps, 'singular value', scale=1e6, canon=True)


def beta_plane(h):
    lat = h.real('latitude', lo=-90, hi=90)
    yo = h.real('offset', lo=-B, hi=B)
    given = h.choice('offset given', [True, False])
    V = get_functionspace(M, 'CG', 1)
    args = []

    class Np:
        pi = Fr(np.pi)

        def __getattr__(self, k):
            return getattr(np, k)

        def sin(self, x):
            args.append(x)
            return core.sym_fn('sin', x)

        def cos(self, x):
            args.append(x)
            return core.sym_fn('cos', x)
    if h.symbolic:
        C = cached('betac', lambda: [fd.Constant(0.) for i in range(3)])
        f0, beta = None, None
        with patched((ut, 'numpy', Np())):
            f0, beta = ut.beta_plane_coriolis_params(lat)
        sn, cs = core.sym_fn('sin', args[0]), core.sym_fn('cos', args[-1])
        for a in args:
            h.prove_eq(a*180, lat*Fr(np.pi), 'degrees', scale=100)
    else:
        f0, beta = ut.beta_plane_coriolis_params(float(lat))
        sn, cs = math.sin(math.radians(lat)), math.cos(math.radians(lat))
    OM = 7.292e-5
    for v, s, k, nm in ((f0, sn, 2*OM, 'f0'), (beta, cs, 2*OM/6.371e6, 'beta')):
        K = Fr(k)if h.symbolic else k
        h.prove((v - K*s*(Fr(999, 1000) if h.symbolic else .999))*(v - K*s*(Fr(1001, 1000) if h.symbolic else 1.001)) <= 0
                if h.symbolic else abs(v - K*s) <= 1e-3*abs(K*s) + 1e-25, f'{nm} within 1e-3')
    c = cached('bc', lambda: [fd.Constant(1.), fd.Constant(2.), fd.Constant(3.)])
    with Point(h, M, 'dx') as p:
        v = [p.constant(q, nm, lo=-B, hi=B) for q, nm in zip(c, ('f0', 'beta', 'yo'))]
        seen = []
        with patched((ut, 'beta_plane_coriolis_params', lambda l: seen.append(l) or (c[0], c[1]))):
            ut.beta_plane_coriolis_function(lat, Interp(V), **({'y_offset': c[2]} if given else {}))
        h.prove(len(seen) == 1 and seen[0] is lat, 'parameters of the latitude')
        h.prove_eq(p.expr(Interp.last), v[0] + v[1]*(p.x[1] - (v[2] if given else 0)), 'f0 + beta (y - offset)', scale=1e6)


def boundary_length(h):
    got = []
    with patched((ut, 'assemble', lambda e, *a, **k: got.append(e) or e)):
        r = ut.compute_boundary_length(M)
    h.prove(sorted(int(k) for k in r) == [1, 2, 3, 4], 'every segment of the boundary')
    for i in r:
        for j in (1, 2):
            with Point(h, M, 'ds', subdomain=j, name=f'p{i}{j}') as p:
                e = r[i]
                # the weight is one everywhere
                for c in ufl.algorithms.extract_coefficients(e):
                    h.prove(bool(np.all(c.dat.data_ro == 1.0)), 'weight one')
                    e = ufl.replace(e, {c: ufl.as_ufl(1.0)})
                h.prove_eq(p.integral(e), 1 if i == j else 0, f'segment {i}: integrates {j}')


def tensor_jump(h):
    u = fun('DG', 1, 'u', vector=True)
    n = fd.FacetNormal(M)
    with Point(h, M, 'dS') as p:
        p.coeff(u, 'u')
        T = ut.tensor_jump(u, n)
        for i in range(2):
            for j in range(2):
                h.prove_eq(p.expr(T[i, j]) if h.symbolic else p._assemble(T[i, j]), (p.value(u, '+', i) - p.value(u, '-', i))*p.n[j],
                           f'component {i}{j}', scale=B)


class NF(SF):
    """nodal field; whole-number assignments allowed"""
    def assign(self, o, *a, **k):
        if np.isscalar(o):
            self.symdat.v[...] = Fr(o)
            return self
        return super().assign(o, *a, **k)


for fam in ('DG', 'CG'):
    ck.harness(f'vorticity[{fam}]', vort_cell(fam))
    for k in ('ds', 'dS'):
        ck.harness(f'vorticity[{fam},{k}]', vort_facet(k, fam))
ck.harness('hessian', hess_cell)
for k in ('ds', 'dS'):
    ck.harness(f'hessian[{k}]', hess_facet(k))
ck.harness('hessian results', hess_result)
ck.harness('gradient', gradient)
ck.harness('kinetic energy', kinetic, max_paths=40)
for k, s in (('dx', None), ('dS', None), ('ds', 1), ('ds', 2), ('ds', 3)):
    ck.harness(f'indicator[{k}{s or ""}]', indicator(k, s))
ck.harness('dual weighted residual', dwr, max_paths=40)
ck.harness('element size', elem_size)
for k in ('ds', 'dS'):
    ck.harness(f'edge lengths[{k}]', facet_areas(k))
ck.harness('minimum angle', angles, max_paths=200)
ck.harness('cell widths', widths, max_paths=200)
ck.harness('anisotropic size', aniso)
ck.harness('beta plane', beta_plane)
ck.harness('boundary length', boundary_length)
ck.harness('tensor jump', tensor_jump)
ck.finish()
