"""C11: vertical velocity, vertical integrals, baroclinic head and internal pressure gradient"""
from three_common import *
from column import Column, plus_is_below
import types
import thetis
import thetis.utility3d as u3
import thetis.utility as ut
import thetis.momentum_eq as me
import thetis.solver as s3

ck = Check('C11', 'vertical operators')
TECHNIQUE = 'symbolic execution of the real weak forms: at an arbitrary integration point of every kind of an extruded mesh, and exactly' \
            ' over a water column of layers of arbitrary heights; z3 decides that every solution of the real discrete equations is the' \
            ' stated integral'
ck.encoded('utility3d.VerticalVelocitySolver', 'utility3d.VerticalIntegrator', 'utility.compute_baroclinic_head',
           'momentum_eq.InternalPressureGradientCalculator', 'momentum_eq.PressureGradientTerm',
           'solver.FlowSolver.create_equations (vertical operators)')
ck.bound('columns of 1 to 3 layers of arbitrary positive heights, piecewise linear input; one arbitrary point of each kind of the mesh'
         ' for the horizontal parts; prisms')
ck.assumed('matrix solve of the linear systems')
B = 10**4


def quiet_solvers():
    nil = types.SimpleNamespace(solve=lambda: None)
    return ((u3, 'LinearVariationalSolver', lambda *a, **k: nil), (me, 'LinearVariationalSolver', lambda *a, **k: nil))


_S, _E = {}, {}


def flow(quad=False, bnd=True, scalar=False):
    """a real 3D solver with its real operators"""
    key = (quad, bnd, scalar)
    if key in _S:
        return _S[key]
    m2 = fd.UnitSquareMesh(1, 1)
    X = m2.coordinates.dat.data
    X[np.argmax(X.sum(axis=1))] += [0.5, 0.25]
    bath = fd.Function(get_functionspace(m2, 'CG', 1), name='bath').assign(2.0)
    sol = s3.FlowSolver(m2, bath, 2)
    o = sol.options
    o.no_exports = True
    o.element_family = 'dg-dg'
    o.timestepper_type = 'SSPRK22'
    o.timestep = o.simulation_export_time = o.simulation_end_time = 1.0
    o.use_baroclinic_formulation = True
    o.solve_salinity = True
    o.use_quadratic_pressure = quad
    if scalar:
        o.internal_pg_scalar = fd.Constant(0.75)
    ext = None
    if bnd:
        sol.create_function_spaces()
        ext = fd.Function(sol.function_spaces.H_bhead, name='ext_head')
        sol.bnd_functions['momentum'] = {2: {}, 3: {'baroc_head': ext}}
    sol.create_equations()
    _E[key] = ext
    _S[key] = sol
    return sol


# -- vertical velocity -------------------------------------------------------------------------------------------------------------
def wform(sol):
    F = sol.w_solver.prob.F
    return F, F.arguments()[0]


def wpoint(h, sol, kind, sub=None, smooth=False, deg2=True):
    p = Point(h, sol.mesh, kind, sub)
    f = sol.fields
    over = dict(hess=True) if deg2 else {}
    p.coeff(f.w_3d, 'w')
    p.coeff(f.uv_3d, 'uv')
    p.coeff(f.uv_dav_3d, 'dav')
    p.phi = fd.Function(f.w_3d.function_space(), name='phi')
    p.coeff(p.phi, 'phi')
    if smooth:
        for g in (f.w_3d, f.uv_3d, f.uv_dav_3d):
            p.same_on_both_sides(g)
    return p


def horizontal(p, sol):
    for f in (sol.fields.uv_3d, sol.fields.uv_dav_3d):
        for sd in p.sides:
            p.set(f, sd, [p.value(f, sd, 0), p.value(f, sd, 1), 0])


def w_cell(h):
    sol = flow()
    F, test = wform(sol)
    f = sol.fields
    with wpoint(h, sol, 'dx') as p:
        SB = strong_and_flux(F, test, fd.SpatialCoordinate(sol.mesh), 3)
        want = p.grad(f.w_3d, None, 2, 2)
        for u in (f.uv_3d, f.uv_dav_3d):
            want = want + p.grad(u, None, 0, 0) + p.grad(u, None, 1, 1) + p.grad(u, None, 2, 2)
        h.prove_eq(p.expr(SB[2][0]), want, 'the weak form is the continuity equation', scale=1e3)


def left3(p, F, test, w):
    tot = p.integral(F, {test: w})
    for c, (S, Bf) in enumerate(strong_and_flux(F, test, fd.SpatialCoordinate(p.mesh), 3)):
        for sd, sg in ((('+', 1), ('-', -1)) if p.interior else ((None, 1),)):
            wc = p.value(w, sd, c)
            for j in range(3):
                tot = tot + sg*wc*p.n[j]*p.expr(Bf[j], sd)
    return tot


def w_facet(kind, sub=None):
    def run(h):
        sol = flow()
        F, test = wform(sol)
        f = sol.fields
        with wpoint(h, sol, kind, sub, smooth=kind.startswith('dS')) as p:
            if kind in ('ds_t', 'ds_v', 'dS_v', 'ds_b'):
                horizontal(p, sol)
            got = left3(p, F, test, p.phi)
            phi = p.value(p.phi, None, 2) if not p.interior else 0
            un = sum(p.n[j]*(p.value(u, None, j)) for u in (f.uv_3d, f.uv_dav_3d) for j in (0, 1)) if not p.interior else 0
            if kind == 'ds_b':
                h.prove_eq(got, -(un + p.value(f.w_3d, None, 2)*p.n[2])*phi, 'no flow through the bed', scale=1e4)
            elif kind == 'ds_v' and sub in (1, 4):
                h.prove_eq(got, -un*phi, 'no flow through closed lateral boundaries', scale=1e4)
            else:
                h.prove_eq(got, 0, 'no left-over', scale=1e4)
    return run


def w_balance(kind, sub=None):
    """tested with one: no volume is made or lost inside the column"""
    def run(h):
        sol = flow()
        F, test = wform(sol)
        f = sol.fields
        with wpoint(h, sol, kind, sub) as p:
            horizontal(p, sol)
            p.set(p.phi, None, [0, 0, 1], 0)
            got = p.integral(F, {test: p.phi})
            if kind in ('dx', 'dS_v', 'dS_h', 'ds_b'):
                h.prove_eq(got, 0, f'no volume source at {kind}', scale=1e4)
            else:
                un = sum(p.n[j]*p.value(u, None, j) for u in (f.uv_3d, f.uv_dav_3d) for j in (0, 1))
                if kind == 'ds_t':
                    h.prove_eq(got, p.value(f.w_3d, None, 2)*p.n[2] + un, 'outflow through the surface', scale=1e4)
                else:
                    h.prove_eq(got, un if sub in (2, 3) else 0, 'outflow through the lateral boundary', scale=1e4)
    return run


_CM = {}


def colmesh(n):
    if n not in _CM:
        _CM[n] = fd.ExtrudedMesh(fd.UnitTriangleMesh(), n)
    return _CM[n]


def heights(h, n):
    return [h.real(f'h{k}', lo=Fr(1, 100), hi=100) for k in range(n)]


def w_unique(n):
    """the discrete problem has one solution: at rest the vertical velocity vanishes"""
    def run(h):
        m = colmesh(n)
        P = get_functionspace(m, 'DG', 1, 'DG', 1, vector=True)
        w, u = fd.Function(P), fd.Function(P)
        bath = fd.Function(get_functionspace(m, 'CG', 1))
        with patched(*quiet_solvers()):
            vs = u3.VerticalVelocitySolver(w, u, bath)
        col = Column(h, m, heights(h, n))
        zero = [[[Fr(0)]*2 for k in range(n)] for c in range(3)]
        col.field(u, zero)
        nod = [zero[0], zero[1], col.nodes(P, lambda s: h.real('w' + s, lo=-B, hi=B), 1)[0]]
        col.field(w, nod)
        F = vs.prob.F
        test = F.arguments()[0]
        for e in col.equations(F, test, 3):
            h.assume_eq(e, 0)
        for k in range(n):
            for i in range(2):
                h.prove_eq(nod[2][k][i], 0, f'w vanishes (layer {k}, node {i})')
    return run


# -- vertical integrals --------------------------------------------------------------------------------------------------------------
def solved(h, col, prob, out, size, solve):
    """nodal values of the solution of the weak equations"""
    V = out.function_space()
    if h.symbolic:
        nod = col.solve(prob, out, size)
        h.prove(nod is not None, 'the discrete problem has one solution')
        return nod or col.nodes(V, lambda s: h.real('r' + s, lo=-B, hi=B), size)
    col.realise()
    h.prove(col.regular(prob), 'the discrete problem has one solution')
    try:
        solve()
    except fd.ConvergenceError:
        pass
    q = col.zdeg(V)
    return [[[col.read(out, k, Fr(i, q), c) for i in range(q + 1)] for k in range(col.n)] for c in range(size)]


def exact(H, nod, bottom_to_top, bnd, q):
    """nodal values (degree q) of the integral of a piecewise linear field"""
    n = len(H)

    def part(k, t):     # from the layer's bottom up to t
        a, b = nod[k]
        return H[k]*(a*t + (b - a)*t*t/2)
    out = []
    for k in range(n):
        row = []
        for i in range(q + 1):
            t = Fr(i, q)
            v = bnd
            if bottom_to_top:
                for j in range(k):
                    v = v + part(j, Fr(1))
                v = v + part(k, t)
            else:
                for j in range(k + 1, n):
                    v = v - part(j, Fr(1))
                v = v - (part(k, Fr(1)) - part(k, t))
            row.append(v)
        out.append(row)
    return out


def integral(n, up, fam, const=False):
    def run(h):
        m = colmesh(n)
        Vin = get_functionspace(m, 'DG', 1, 'DG', 1)
        V = get_functionspace(m, *fam)
        f, out, b = fd.Function(Vin), fd.Function(V), fd.Constant(0.0)
        vi = u3.VerticalIntegrator(f, out, bottom_to_top=up, bnd_value=b)
        H = heights(h, n)
        col = Column(h, m, H)
        if const:       # constant in each layer: the integral is linear there
            nod = []
            for k in range(n):
                c = h.real(f'f.{k}', lo=-B, hi=B)
                nod.append([c, c])
            nod = [nod]
        else:
            nod = col.nodes(Vin, lambda s: h.real('f' + s, lo=-B, hi=B), 1)
        col.field(f, nod)
        bv = h.real('bnd', lo=-B, hi=B)
        col.const(b, bv)
        got = solved(h, col, vi.prob, out, 1, lambda: vi.solve())
        want = exact(H, nod[0], up, bv, fam[3])
        for k in range(n):
            for i in range(fam[3] + 1):
                h.prove_eq(got[0][k][i], want[k][i], f'integral at node {i} of layer {k}', scale=1e6)
    return run


def end_value(n, up, fam):
    """linear output cannot hold the quadratic integral, but its outflow value is exact in every layer"""
    def run(h):
        m = colmesh(n)
        Vin = get_functionspace(m, 'DG', 1, 'DG', 1)
        V = get_functionspace(m, *fam)
        f, out, b = fd.Function(Vin), fd.Function(V), fd.Constant(0.0)
        vi = u3.VerticalIntegrator(f, out, bottom_to_top=up, bnd_value=b)
        H = heights(h, n)
        col = Column(h, m, H)
        nod = col.nodes(Vin, lambda s: h.real('f' + s, lo=-B, hi=B), 1)
        col.field(f, nod)
        bv = h.real('bnd', lo=-B, hi=B)
        col.const(b, bv)
        got = solved(h, col, vi.prob, out, 1, lambda: vi.solve())
        want = exact(H, nod[0], up, bv, 1)
        for k in range(n):
            i = 1 if up else 0
            h.prove_eq(got[0][k][i], want[k][i], f'integral over layer {k}', scale=1e6)
    return run


def average(n, std=True):
    """the depth average of the velocity, read at the surface"""
    def run(h):
        m = colmesh(n)
        V = get_functionspace(m, 'DG', 1, 'DG', 1, vector=True)
        R = get_functionspace(m, 'CG', 1, 'R', 0)
        uv, dav = fd.Function(V), fd.Function(V)
        bath, elev = fd.Function(R), fd.Function(R)
        vi = u3.VerticalIntegrator(uv, dav, bottom_to_top=True, bnd_value=fd.Constant((0.0, 0.0, 0.0)), average=True,
                                   bathymetry=bath, elevation=elev)
        run_average(h, m, n, vi, uv, dav, bath, elev)
    return run


def run_average(h, m, n, vi, uv, dav, bath, elev):
    H = heights(h, n)
    D = sum(H[1:], H[0])
    eta = h.real('eta', lo=-50, hi=50)
    h.assume(D - eta > Fr(1, 100))
    col = Column(h, m, H, bottom=eta - D)
    nod = col.nodes(uv.function_space(), lambda s: h.real('u' + s, lo=-B, hi=B), 2) + [[[Fr(0)]*2 for k in range(n)]]
    col.field(uv, nod)
    col.field(elev, [[[eta]]*n], keep=True)
    col.field(bath, [[[D - eta]]*n], keep=True)
    got = solved(h, col, vi.prob, dav, 3, lambda: vi.solve())
    for c in range(2):
        mean = sum(H[k]*(nod[c][k][0] + nod[c][k][1])/2 for k in range(n))
        h.prove_eq(got[c][n-1][1]*D, mean, f'surface value is the depth average (component {c})', scale=1e6)
    h.prove_eq(got[2][n-1][1], 0, 'no vertical component')


def solver_average(h):
    sol = flow()
    f = sol.fields
    run_average(h, sol.mesh, 2, sol.uv_averager, f.uv_3d, f.uv_dav_3d, f.bathymetry_2d.view_3d, f.elev_cg_2d.view_3d)


class Head:
    """records what compute_baroclinic_head does to the head"""
    def __init__(self, v):
        self.v = v
        self.factor = 1

    def __imul__(self, c):
        self.factor = self.factor*Fr(float(c)).limit_denominator(10**9)
        return self


def head(quad, calls=()):
    def run(h):
        sol = flow(quad=quad)
        f = sol.fields
        H = heights(h, 2)
        col = Column(h, sol.mesh, H)
        nod = col.nodes(f.density_3d.function_space(), lambda s: h.real('rho' + s, lo=-100, hi=100), 1)
        col.field(f.density_3d, nod)
        for k in ('bathymetry_2d', 'elev_cg_2d'):
            col.field(getattr(f, k).view_3d, [[[Fr(1)]]*2], keep=True)
        log = []
        out = f.baroc_head_3d
        st = types.SimpleNamespace()
        st.density_solver = types.SimpleNamespace(solve=lambda: log.append('density'))
        if h.symbolic:
            r = Head(None)
            st.fields = types.SimpleNamespace(baroc_head_3d=r)

            def solve():
                log.append('integral')
                r.factor = 1
                r.nod = solved(h, col, sol.rho_integrator.prob, out, 1, None)
            st.rho_integrator = types.SimpleNamespace(solve=solve)
            st.int_pg_calculator = types.SimpleNamespace(solve=lambda: log.append(('pg', r.factor)))
            ut.compute_baroclinic_head(st)
            assert [q if isinstance(q, str) else q[0] for q in log] == ['density', 'integral', 'pg'], 'order of the steps'
            assert log[-1][1] == r.factor, 'the pressure gradient sees the final head'
            got = [[r.factor*v for v in row] for row in r.nod[0]]
        else:
            col.realise()
            st.fields, st.rho_integrator = f, sol.rho_integrator
            st.int_pg_calculator = types.SimpleNamespace(solve=lambda: log.append(f.baroc_head_3d.dat.data_ro.copy()))
            ut.compute_baroclinic_head(st)
            assert len(log) == 2 and np.array_equal(log[-1], f.baroc_head_3d.dat.data_ro)
            got = [[col.read(out, k, Fr(i, 2)) for i in range(3)] for k in range(2)]
        rho0 = Fr(float(thetis.physical_constants['rho0']))
        want = exact(H, nod[0], False, Fr(0), 2)
        for k in range(2):
            for i in range(3):
                h.prove_eq(got[k][i]*rho0, -want[k][i], f'baroclinic head at node {i} of layer {k}', scale=1e4)
    return run


# -- internal pressure gradient -----------------------------------------------------------------------------------------------------------
_P = {}


def calc(kind='dg', scalar=False):
    """the real calculator: the one of the solver, or with a continuous head"""
    if kind in ('dg', 'quad'):
        sol = flow(quad=kind == 'quad', scalar=scalar)
        return sol.int_pg_calculator, sol.fields, sol.mesh, _E[kind == 'quad', True, scalar], sol.options.internal_pg_scalar
    if (kind, scalar) not in _P:
        m = mesh3()
        f = types.SimpleNamespace(int_pg_3d=fd.Function(space(1, True), name='int_pg'),
                                  baroc_head_3d=fd.Function(space(2, fam='CG'), name='head'))
        s = fd.Constant(0.75) if scalar else None
        with patched(*quiet_solvers()):
            c = me.InternalPressureGradientCalculator(f, fd.Function(space(1, fam='CG')), {}, internal_pg_scalar=s)
        _P[kind, scalar] = c, f, m, None, s
    return _P[kind, scalar]


def pg_form(kind, scalar):
    c, f, m, ext, s = calc(kind, scalar)
    F = c.residual(f.int_pg_3d, f.int_pg_3d, {'baroc_head': f.baroc_head_3d}, {'baroc_head': f.baroc_head_3d},
                   {3: {'baroc_head': ext}} if ext is not None else {})
    return c, f, m, ext, s, F


def problem(c):
    """the variational problem of the calculator"""
    s = c.lin_solver
    return s._problem


def pg_setup(kind, scalar):
    """the calculator's own variational problem, F = (int_pg, test) - l"""
    key = ('prob', kind, scalar)
    if key not in _P:
        c, f, m, ext, s = calc(kind, scalar)
        got = []
        bnd = {2: {}, 3: {'baroc_head': ext}} if ext is not None else {}
        if kind in ('dg', 'quad'):
            prob = c.lin_solver._problem
        else:
            with patched((me, 'LinearVariationalProblem', lambda a, l, u, **k: got.append((a, l, u)))), patched(*quiet_solvers()):
                me.InternalPressureGradientCalculator(f, fd.Function(space(1, fam='CG')), bnd, internal_pg_scalar=s)
            a, l, u = got[0]
            prob = fd.LinearVariationalProblem(a, l, u)
        F = prob.F
        _P[key] = f, m, ext, s, F, F.arguments()[0]
    return _P[key]


def pg_point(h, f, m, ext, s, kind, sub=None):
    p = Point(h, m, kind, sub)
    p.coeff(f.int_pg_3d, 'pg')
    p.coeff(f.baroc_head_3d, 'head')
    if ext is not None:
        p.coeff(ext, 'ext')
    p.psi = fd.Function(f.int_pg_3d.function_space(), name='psi')
    p.coeff(p.psi, 'psi')
    p.k = p.constant(s, 'scalar', lo=-10, hi=10) if s is not None else 1
    return p


G = Fr('9.81')


def pg_cell(kind, scalar):
    def run(h):
        f, m, ext, s, F, test = pg_setup(kind, scalar)
        with pg_point(h, f, m, ext, s, 'dx') as p:
            SB = strong_and_flux(F, test, fd.SpatialCoordinate(m), 3)
            for i in range(2):
                h.prove_eq(p.expr(SB[i][0]), p.value(f.int_pg_3d, None, i) - p.k*G*p.grad(f.baroc_head_3d, None, 0, i),
                           f'int_pg is the gradient of the head (component {i})', scale=1e3)
            if len(SB) > 2:
                h.prove_eq(p.expr(SB[2][0]), p.value(f.int_pg_3d, None, 2), 'no vertical component', scale=1e3)
    return run


def pg_facet(kind, scalar, fk, sub=None, match=False):
    def run(h):
        f, m, ext, s, F, test = pg_setup(kind, scalar)
        with pg_point(h, f, m, ext, s, fk, sub) as p:
            if p.interior:
                p.same_on_both_sides(f.baroc_head_3d)
                if ext is not None:
                    p.same_on_both_sides(ext)
            if sub == 3 and match:
                p.set(ext, None, [p.value(f.baroc_head_3d)])
            psin = 0 if p.interior else p.value(p.psi, None, 0)*p.n[0] + p.value(p.psi, None, 1)*p.n[1]
            want, what = 0, 'no left-over'
            if sub == 3 and ext is not None and not match:
                what = 'mean of inside and outside head'
                want = -p.k*G*(p.value(ext) - p.value(f.baroc_head_3d))/2*psin
            h.prove_eq(left3(p, F, test, p.psi), want, what, scale=1e4)
    return run


def pg_third(kind, scalar, fk):
    """interior facets only redistribute: tested with a constant vector they drop out"""
    def run(h):
        f, m, ext, s, F, test = pg_setup(kind, scalar)
        with pg_point(h, f, m, ext, s, fk) as p:
            c = [h.real(f'c{i}', lo=-10, hi=10) for i in range(len(p.vals(p.psi, '+')))]
            p.set(p.psi, None, c, 0)
            h.prove_eq(p.integral(F, {test: p.psi}), 0, 'no net force from interior facets', scale=1e4)
    return run


def pg_term(h):
    """the momentum equation takes the stored gradient with the right sign"""
    m = mesh3()
    V = space(1, True)
    pg = fd.Function(V, name='int_pg')
    t = me.PressureGradientTerm(V, bathymetry=fd.Function(space(1, fam='CG')))
    F = t.residual(fd.Function(V), fd.Function(V), {'int_pg': pg}, {}, {})
    psi = fd.Function(V, name='psi')
    with Point(h, m, 'dx') as p:
        p.coeff(pg, 'pg')
        p.coeff(psi, 'psi')
        want = -sum(p.value(pg, None, i)*p.value(psi, None, i) for i in range(2))
        h.prove_eq(p.integral(F, {t.test: psi}), want, 'force is minus the pressure gradient', scale=1e4)


ck.harness('w-cell', w_cell)
for k, s in (('dS_v', None), ('dS_h', None), ('ds_t', None), ('ds_b', None), ('ds_v', 1), ('ds_v', 2), ('ds_v', 3), ('ds_v', 4)):
    v = (k, s) in (('dS_v', None), ('dS_h', None), ('ds_b', None))
    ck.harness(f'w-smooth[{k},{s}]', w_facet(k, s), validate=v or ck.thorough)
    ck.harness(f'w-volume[{k},{s}]', w_balance(k, s), validate=ck.thorough)
ck.harness('w-volume[dx]', w_balance('dx'), validate=ck.thorough)
for n in (1, 2, 3):
    ck.harness(f'w-unique[{n}]', w_unique(n), validate=False)
    for up in (True, False):
        nm = 'up' if up else 'down'
        ck.harness(f'integral[{nm},P2,{n}]', integral(n, up, ('DG', 1, 'CG', 2)), validate=n == 2)
        ck.harness(f'integral[{nm},P1,{n}]', integral(n, up, ('DG', 1, 'CG', 1), const=True), validate=False)
        ck.harness(f'integral[{nm},P1DG,{n}]', integral(n, up, ('DG', 1, 'DG', 1), const=True), validate=n == 2)
        ck.harness(f'layer-integral[{nm},P1DG,{n}]', end_value(n, up, ('DG', 1, 'DG', 1)), validate=False)
        ck.harness(f'integral[{nm},P2DG,{n}]', integral(n, up, ('DG', 1, 'DG', 2)), validate=False)
    if n < 3 or ck.thorough:
        ck.harness(f'average[{n}]', average(n), validate=n == 1)
ck.harness('average[solver]', solver_average)
for q in (False, True):
    ck.harness(f'baroclinic-head[quad={int(q)}]', head(q), validate=not q or ck.thorough)
for kind, sc in (('dg', False), ('quad', False), ('dg', True), ('cg', False), ('cg', True)):
    nm = f'{kind},scalar={int(sc)}'
    ck.harness(f'pg-cell[{nm}]', pg_cell(kind, sc), validate=kind != 'quad')
    for k, s in (('dS_v', None), ('dS_h', None), ('ds_t', None), ('ds_b', None), ('ds_v', 1), ('ds_v', 2), ('ds_v', 3), ('ds_v', 4)):
        ck.harness(f'pg-smooth[{k},{s},{nm}]', pg_facet(kind, sc, k, s), validate=(kind, sc, k) == ('dg', False, 'dS_v') or ck.thorough)
        if k.startswith('dS'):
            ck.harness(f'pg-net[{k},{nm}]', pg_third(kind, sc, k), validate=ck.thorough)
    if kind != 'cg':
        ck.harness(f'pg-match[{nm}]', pg_facet(kind, sc, 'ds_v', 3, True), validate=ck.thorough)
ck.harness('pg-force', pg_term)
ck.finish()
