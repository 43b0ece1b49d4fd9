"""C36: non-hydrostatic pressure correction of the 2D model"""
from column_mesh import *
from symx.point import Point
from symx.consist import strong_and_flux
import ufl
from firedrake import dx, ds, inner, dot, grad
from thetis.physical_constants import physical_constants

ck = Check('C36', 'non-hydrostatic correction')
TECHNIQUE = 'symbolic execution of the real weak forms of the pressure, velocity and vertical velocity equations at arbitrary points;' \
            ' z3 decides agreement with the documented equations for all values'
ck.encoded('utility.DepthIntegratedPoissonSolver', 'utility.DepthExpression')
ck.bound('arbitrary values, gradients and second derivatives at one point; boundary facets with arbitrary normals; linear and nonlinear'
         ' depth, wetting and drying; discontinuous and continuous elevation; time steps from 1e-3 to 1e3')
ck.assumed('the linear solves of Firedrake', 'the elevation of a cell is smooth (one cell at a time)')
B = 10**3
RHO = exact(float(physical_constants['rho0']))
M = fd.UnitSquareMesh(1, 1)
M.coordinates.dat.data[np.argmax(M.coordinates.dat.data_ro.sum(axis=1))] += [0.5, 0.25]
_C = {}


def cached(k, f):
    if k not in _C:
        _C[k] = f()
    return _C[k]


def world(depth='nonlinear', hfam='DG', opened=(1,)):
    def make():
        q = fd.Function(get_functionspace(M, 'CG', 2), name='q')
        u = fd.Function(get_functionspace(M, 'DG', 2, vector=True), name='u')
        w = fd.Function(get_functionspace(M, hfam, 2), name='w')
        e = fd.Function(get_functionspace(M, hfam, 2), name='e')
        b = fd.Function(get_functionspace(M, 'CG', 2), name='b')
        dt = fd.Constant(1.0)
        al = fd.Constant(0.5)
        d = ut.DepthExpression(b, use_nonlinear_equations=depth != 'linear', use_wetting_and_drying=depth == 'wetting',
                               wetting_and_drying_alpha=al)
        got = []
        nil = types.SimpleNamespace(solve=lambda: None)
        ns = types.SimpleNamespace

        def nlp(F, u, *a, bcs=None, **k):
            return ns(F=F, u=u, bcs=bcs)

        def lp(a, L, u, *r, bcs=None, **k):
            return ns(a=a, L=L, u=u, bcs=bcs)

        class S:
            def __init__(self, p, *a, **k):
                self.p = p
                got.append(p)
        bnd = {'shallow_water': {i: {'elev': fd.Constant(0.0)} for i in opened}}
        with patched((ut, 'NonlinearVariationalProblem', nlp), (ut, 'LinearVariationalProblem', lp), (ut, 'NonlinearVariationalSolver', S),
                     (ut, 'LinearVariationalSolver', S)):
            o = ut.DepthIntegratedPoissonSolver(q, u, w, e, d, dt, bnd)
        return ns(q=q, u=u, w=w, e=e, b=b, dt=dt, al=al, o=o, got=got, d=d, depth=depth)
    return cached((depth, hfam, opened), make)


def setup(h, p, W, **kw):
    for f, nm in ((W.q, 'q'), (W.u, 'u'), (W.w, 'w'), (W.e, 'e'), (W.b, 'b')):
        p.coeff(f, nm)
    dt = p.constant(W.dt, 'dt', lo=Fr(1, 1000), hi=1000)
    if W.depth == 'wetting':
        al = p.constant(W.al, 'alpha', lo=Fr(1, 10), hi=10)
    H = p.value(W.b) + (p.value(W.e) if W.depth != 'linear' else 0)
    gH = [p.grad(W.b, None, 0, i) + (p.grad(W.e, None, 0, i) if W.depth != 'linear' else 0) for i in range(2)]
    if W.depth == 'wetting':
        # displacement 0.5 (sqrt(H^2 + alpha^2) - H)
        r = (sym_sqrt(H*H + al*al) if h.symbolic else math.sqrt(H*H + al*al))
        gH = [Fr(1, 2)*(g + H*g/r) if h.symbolic else 0.5*(g + H*g/r) for g in gH]
        H = (H + r)/2
    h.assume(H >= Fr(1, 100))
    G = [p.grad(W.e, None, 0, i) - p.grad(W.b, None, 0, i) for i in range(2)]
    return dt, H, gH, G


def pressure(depth, hfam):
    """Laplace q + A.grad q + (div A - 4/H^2) q - 2 rho/dt (div u + 2 (w - w_b)/H) = 0"""
    def run(h):
        W = world(depth, hfam)
        P = [g for g in W.got if g.u is W.q]
        h.prove(len(P) == 1, 'one equation for the pressure')
        F = P[0].F
        te = F.arguments()[0]
        with Point(h, M, 'dx') as p:
            dt, H, gH, G = setup(h, p, W)
            (S, Bf), = strong_and_flux(F, te, fd.SpatialCoordinate(M), 2)
            g = lambda f, i: p.grad(f, None, 0, i)
            lap = lambda f: p.hess(f, None, 0, 0, 0) + p.hess(f, None, 0, 1, 1)
            divA = (lap(W.e) - lap(W.b))/H - (G[0]*gH[0] + G[1]*gH[1])/(H*H)
            u = [p.value(W.u, None, i) for i in range(2)]
            divu = p.grad(W.u, None, 0, 0) + p.grad(W.u, None, 1, 1)
            wb = -(u[0]*g(W.b, 0) + u[1]*g(W.b, 1))
            qv = p.value(W.q)
            want = lap(W.q) + (G[0]*g(W.q, 0) + G[1]*g(W.q, 1))/H + (divA - 4/(H*H))*qv \
                - 2*RHO/dt*(divu + 2*(p.value(W.w) - wb)/H)
            h.prove_eq(p.expr(S)*dt*H*H, want*dt*H*H, 'documented pressure equation', scale=1e9, canon=True)
    return run


def closed(depth):
    """on a closed boundary the corrected normal velocity vanishes"""
    def run(h):
        W = world(depth)
        F = W.got[0].F
        te = F.arguments()[0]
        with Point(h, M, 'ds', subdomain=2) as p:
            dt, H, gH, G = setup(h, p, W)
            t = fd.Function(W.q.function_space(), name='t')
            p.coeff(t, 't')
            (S, Bf), = strong_and_flux(F, te, fd.SpatialCoordinate(M), 2)
            tot = p.integral(F, {te: t})
            for j in range(2):
                tot = tot + p.value(t)*p.n[j]*p.expr(Bf[j])
            un = 0
            for j in range(2):
                un = un + p.n[j]*(p.value(W.u, None, j) - dt/(2*RHO)*(p.grad(W.q, None, 0, j) + G[j]/H*p.value(W.q)))
            h.prove_eq(tot*dt*H, un*2*RHO*p.value(t)*H, 'natural boundary condition: no corrected flow through the wall', scale=1e9, canon=True)
    return run


def opened(depth):
    """on an open boundary the pressure is zero, or has no normal gradient; walls are not constrained"""
    def run(h):
        for op in ((1,), (1, 3)):
            W = world(depth, opened=op)
            marks = sorted(int(m) for b in BCS(W) for m in np.ravel(b.sub_domain))
            h.prove(set(marks) <= set(op), 'walls are not constrained')
            for b in BCS(W):
                v = b.function_arg
                h.prove(float(np.max(np.abs(v.dat.data_ro if hasattr(v, 'dat') else float(v)))) == 0, 'value zero')
            F = W.got[0].F
            te = F.arguments()[0]
            for m in sorted(set(op) - set(marks)):
                with Point(h, M, 'ds', subdomain=m, name=f'p{len(op)}{m}') as p:
                    dt, H, gH, G = setup(h, p, W)
                    t = fd.Function(W.q.function_space(), name='t')
                    p.coeff(t, 't')
                    (S, Bf), = strong_and_flux(F, te, fd.SpatialCoordinate(M), 2)
                    tot = p.integral(F, {te: t})
                    for j in range(2):
                        tot = tot + p.value(t)*p.n[j]*p.expr(Bf[j])
                    dq = p.n[0]*p.grad(W.q, None, 0, 0) + p.n[1]*p.grad(W.q, None, 0, 1)
                    h.prove_eq(tot*dt*H, -p.value(t)*dq*dt*H, 'no normal gradient of the pressure', scale=1e9, canon=True)
    return run


def BCS(W):
    P = [g for g in W.got if g.u is W.q][0]
    return P.bcs or []


def velocity(depth, hfam):
    def run(h):
        W = world(depth, hfam)
        P = [g for g in W.got if g.u is W.u]
        h.prove(len(P) == 1, 'one equation for the velocity')
        P = P[0]
        h.prove(not P.bcs, 'no constraints')
        te, tr = P.a.arguments()
        for i in P.a.integrals() + P.L.integrals():
            h.prove(i.integral_type() == 'cell', 'cell-wise')
        with Point(h, M, 'dx') as p:
            dt, H, gH, G = setup(h, p, W)
            t, s = fd.Function(W.u.function_space(), name='t'), fd.Function(W.u.function_space(), name='s')
            p.coeff(t, 't')
            p.coeff(s, 's')
            V = lambda f, i: p.value(f, None, i)
            h.prove_eq(p.integral(P.a, {te: t, tr: s}), V(t, 0)*V(s, 0) + V(t, 1)*V(s, 1), 'mass', scale=B)
            want = 0
            for i in range(2):
                want = want + V(t, i)*(V(W.u, i) - dt/(2*RHO)*(p.grad(W.q, None, 0, i) + G[i]/H*p.value(W.q)))
            h.prove_eq(p.integral(P.L, {te: t})*H, want*H, 'u - dt/(2 rho) (grad q + q grad(eta - d)/H)', scale=1e6, canon=True)
    return run


def vertical(depth, hfam):
    def run(h):
        W = world(depth, hfam)
        P = [g for g in W.got if g.u is W.w]
        h.prove(len(P) == 1, 'one equation for the vertical velocity')
        P = P[0]
        te, tr = P.a.arguments()
        for i in P.a.integrals() + P.L.integrals():
            h.prove(i.integral_type() == 'cell', 'cell-wise')
        with Point(h, M, 'dx') as p:
            dt, H, gH, G = setup(h, p, W)
            t, s = fd.Function(W.w.function_space(), name='t'), fd.Function(W.w.function_space(), name='s')
            p.coeff(t, 't')
            p.coeff(s, 's')
            h.prove_eq(p.integral(P.a, {te: t, tr: s}), p.value(t)*p.value(s), 'mass', scale=B)
            h.prove_eq(p.integral(P.L, {te: t})*H, p.value(t)*(p.value(W.w)*H + dt/RHO*p.value(W.q)), 'w + dt/rho q/H', scale=1e6, canon=True)
    return run


def order(h):
    """pressure first; the vertical velocity only on request; arbitrary results of the solves"""
    uf = UF(h)
    v = {k: h.real(k, lo=-B, hi=B) for k in 'quw'}
    start = dict(v)
    sw = h.choice('solve_w', [None, True, False])
    s = object.__new__(ut.DepthIntegratedPoissonSolver)

    def upd(k, *dep):
        def solve():
            v[k] = uf('new ' + k, v[k], *[v[d] for d in dep])
        return types.SimpleNamespace(solve=solve)
    s.solver_q, s.solver_u, s.solver_w = upd('q', 'u', 'w'), upd('u', 'q'), upd('w', 'q')
    s.solve(**({} if sw is None else {'solve_w': sw}))
    q = uf('new q', start['q'], start['u'], start['w'])
    h.prove_eq(v['q'], q, 'pressure from the velocity before the correction', scale=B)
    h.prove_eq(v['u'], uf('new u', start['u'], q), 'velocity with the new pressure', scale=B)
    h.prove_eq(v['w'], uf('new w', start['w'], q) if sw is not False else start['w'], 'vertical velocity with the new pressure', scale=B)


for dpt, fam in (('nonlinear', 'DG'), ('nonlinear', 'CG'), ('linear', 'DG'), ('wetting', 'DG')):
    ck.harness(f'pressure[{dpt},{fam}]', pressure(dpt, fam), timeout_ms=60000)
    ck.harness(f'velocity[{dpt},{fam}]', velocity(dpt, fam), timeout_ms=60000)
    ck.harness(f'vertical velocity[{dpt},{fam}]', vertical(dpt, fam), timeout_ms=60000)
for dpt in ('nonlinear', 'linear'):
    ck.harness(f'closed boundary[{dpt}]', closed(dpt), timeout_ms=60000)
for dpt in ('nonlinear', 'linear'):
    ck.harness(f'open boundary[{dpt}]', opened(dpt), timeout_ms=60000)
ck.harness('order', order)
ck.finish()
