"""C16: equation of state"""
from stand import *
import numpy as np
import firedrake as fd
import thetis
import thetis.utility3d as u3
from thetis.utility import get_functionspace
from ckernel import SF, values
from symx.ufleval import *
from symx.point import Point

ck = Check('C16', 'eos')
TECHNIQUE = 'symbolic execution of the real equations of state and density solvers on symbolic salinity, temperature, pressure and' \
            ' reference values; z3 decides equality with the published rational function and physical bounds'
ck.encoded('utility3d.LinearEquationOfState.*', 'utility3d.JackettEquationOfState.*', 'utility3d.DensitySolver.*', 'utility3d.DensitySolverWeak.*',
           'utility3d.VelocityMagnitudeSolver.*')
ck.bound('salinity -5..50, temperature -5..45, pressure 0..10^4 dbar; 3 nodes')
ck.assumed('coefficients are those of Jackett et al. (2006), table A2; L2 projection itself is Firedrake')

# (powers of salinity/2, temperature, pressure) -> coefficient; Jackett et al. 2006
PN = {(0, 0, 0): '9.9984085444849347e2', (0, 1, 0): '7.3471625860981584e0', (0, 2, 0): '-5.3211231792841769e-2', (0, 3, 0): '3.6492439109814549e-4',
      (2, 0, 0): '2.5880571023991390e0', (2, 1, 0): '-6.7168282786692355e-3', (4, 0, 0): '1.9203202055760151e-3',
      (0, 0, 1): '1.1798263740430364e-2', (0, 2, 1): '9.8920219266399117e-8', (2, 0, 1): '4.6996642771754730e-6',
      (0, 0, 2): '-2.5862187075154352e-8', (0, 2, 2): '-3.2921414007960662e-12'}
PD = {(0, 0, 0): '1', (0, 1, 0): '7.2815210113327091e-3', (0, 2, 0): '-4.4787265461983921e-5', (0, 3, 0): '3.3851002965802430e-7',
      (0, 4, 0): '1.3651202389758572e-10', (2, 0, 0): '1.7632126669040377e-3', (2, 1, 0): '-8.8066583251206474e-6',
      (2, 3, 0): '-1.8832689434804897e-10', (3, 0, 0): '5.7463776745432097e-6', (3, 2, 0): '1.4716275472242334e-9',
      (0, 0, 1): '6.7103246285651894e-6', (0, 3, 2): '-2.4461698007024582e-17', (0, 1, 3): '-9.1534417604289062e-18'}


def poly(h, C, s, t, p):
    f = (lambda c: frac(float(c))) if h.symbolic else float
    root = sym_pow(s, Fr(3, 2)) if is_sym(s) else math.sqrt(s)**3
    r = 0
    for (a, b, c), k in C.items():
        m = f(k)
        if a == 3:
            m, a = m*root, 0
        for x, n in ((s, a//2), (t, b), (p, c)):
            for _ in range(n):
                m = m*x
        r = r + m
    return r


def reference(h, s, t, p, rho0):
    return poly(h, PN, s, t, p)/poly(h, PD, s, t, p) - rho0


def state(h, i='', neg=False, pressure=True):
    s = h.real(f's{i}', lo=0, hi=50)
    t = h.real(f't{i}', lo=-5, hi=45)
    p = h.real(f'p{i}', lo=0, hi=10000) if pressure else 0
    return s, t, p


def arr(h, x):
    return np.array(x, dtype=object if h.symbolic else float)


TOL = Fr(1, 10**8)


def jackett(kind):
    """value of eval and compute_rho at symbolic points"""
    def run(h):
        eos = u3.JackettEquationOfState()
        n = 1 if kind == 'scalar' else 2
        S, T, P, R = [], [], [], []
        rho0 = h.real('rho0', lo=0, hi=1100)
        for i in range(n):
            s, t, p = state(h, i)
            q = s
            wet = h.choice(f'sign{i}', [True, False])
            if not wet:
                s = h.real(f'neg{i}', lo=-5, hi=-0.001)
                q = 0
            S.append(s)
            T.append(t)
            P.append(p)
            R.append(reference(h, q, t, p, rho0))
        a = (S[0], T[0], P[0]) if kind == 'scalar' else (arr(h, S), arr(h, T), arr(h, P))
        keep = [q for q in S]
        rho = eos.compute_rho(*a, rho0)
        rho_d = eos.compute_rho(*a)
        if kind == 'scalar':
            rho, rho_d = [rho], [rho_d]
        for i in range(n):
            h.prove_eq(rho[i], R[i], 'published formula', tol=TOL, canon=True)
            h.prove_eq(rho_d[i], R[i] + rho0, 'full density without reference', tol=TOL, canon=True)
            if kind != 'scalar':
                h.prove_eq(a[0][i], keep[i], 'salinity is not changed')
        if all(bool(s >= 0) for s in S):
            e = eos.eval(*a, rho0)
            e = [e] if kind == 'scalar' else e
            for i in range(n):
                h.prove_eq(e[i], R[i], 'symbolic form agrees', tol=TOL, canon=True)
    return run


def denominator(h):
    s, t, p = state(h)
    d = poly(h, PD, s, t, 0)
    h.prove(d > 0.6, 'denominator is positive without pressure')
    h.prove_ge(poly(h, {k: v for k, v in PD.items() if k[2]}, s, t, p), -0.1, 'share of pressure')


def published(h):
    """check values of the publication (digits as printed)"""
    eos = u3.JackettEquationOfState()
    for s, t, p, r in ((35., 25., 2000., 1031.65056056576), (20., 20., 1000., 1017.72886801964), (40., 12., 8000., 1062.95279820631)):
        h.prove(abs(float(eos.compute_rho(s, t, p)) - r) < 1e-8, f'check value {s} {t} {p}')


def physical(h):
    """density stays in the oceanic range and rises with salinity, at the surface pressure the solvers use"""
    eos = u3.JackettEquationOfState()
    s = h.choice('s', [0., 20., 36.])
    ds = h.choice('ds', [2.])
    t = h.real('t', lo=-2, hi=40)
    p = 0.
    r1, r2 = eos.compute_rho(s, t, p), eos.compute_rho(s + ds, t, p)
    h.prove(r2 > r1, 'salt water is denser')
    h.prove(r1 > 985, 'not too light')
    h.prove(r2 < 1045, 'not too dense')


def linear(h):
    rr, al, be, tr, sr, r0 = [h.real(k, lo=a, hi=b) for k, a, b in (('rho_ref', 900, 1100), ('alpha', -1, 1), ('beta', -1, 1), ('th_ref', -5, 45),
                                                                     ('s_ref', 0, 50), ('rho0', 0, 1100))]
    s, t, p = [h.real(k, lo=-5, hi=50) for k in 'stp']
    n = h.choice('array', [False, True])
    eos = u3.LinearEquationOfState(rr, al, be, tr, sr)
    kw = u3.LinearEquationOfState(s_ref=sr, th_ref=tr, beta=be, alpha=al, rho_ref=rr)
    a = (arr(h, [s]), arr(h, [t])) if n else (s, t)
    want = rr - al*(t - tr) + be*(s - sr)
    for e in (eos, kw):
        for f in (e.compute_rho, e.eval):
            for got, w in ((f(*a, p, r0), want - r0), (f(*a, p), want), (f(*a, p, rho0=r0), want - r0)):
                h.prove_eq(got[0] if n else got, w, 'linear formula', tol=Fr(1, 10**10))
    h.prove_eq(eos.compute_rho(sr, tr, p, rr), 0, 'no anomaly at the reference state', tol=Fr(1, 10**10))


MESH = fd.ExtrudedMesh(fd.UnitTriangleMesh(), 1, 1.0)
H = get_functionspace(fd.UnitTriangleMesh(), 'DG', 1)


def eos_of(h, kind):
    if kind == 'jackett':
        return u3.JackettEquationOfState(), None
    k = [h.real(f'k{i}', lo=a, hi=b) for i, (a, b) in enumerate(((900, 1100), (-1, 1), (-1, 1), (-5, 45), (0, 50)))]
    return u3.LinearEquationOfState(*k), k


def density(kind, salt, temp):
    """nodal values of the density anomaly, point-wise and projected"""
    def run(h):
        eos, k = eos_of(h, kind)
        n = 3 if kind == 'linear' else 2
        r0 = h.choice('rho0', [1000.0, 1025.5])
        Q, S, T = [], [], []
        for i in range(3):
            s, t, _ = state(h, i, pressure=False) if i < n else (s, t, 0)
            q = s
            if salt == 'field' and i == 0 and h.choice('brackish', [False, True]):
                s = h.real('neg', lo=-5, hi=-0.001)
                q = 0 if kind == 'jackett' else q
            Q.append(q)
            S.append(s)
            T.append(t)

        def given(how, v, c):
            if how == 'field':
                f = SF(H, val=arr(h, v)) if h.symbolic else fd.Function(H)
                if not h.symbolic:
                    f.dat.data[:] = v
                return f, v
            return (fd.Constant(c) if how == 'constant' else c), [c]*3
        fs, S = given(salt, S, 1.0)
        ft, T = given(temp, T, 1.0)
        if salt != 'field':
            Q = [1.0]*3

        def want(i, clip):
            if kind == 'jackett':
                return reference(h, Q[i], T[i], 0, r0)
            s = S[i]
            if clip and not bool(s >= 0):
                s = 0
            return k[0] - k[1]*(T[i] - k[3]) + k[2]*(s - k[4]) - r0
        rho = SF(H) if h.symbolic else fd.Function(H)
        with patched((u3, 'physical_constants', {'rho0': fd.Constant(r0)}), *([(u3, 'float', SFloat)] if h.symbolic else [])):
            d = u3.DensitySolver(fs, ft, rho, eos)
            d.solve()
            out = rho.dat.data
            for i in range(3):
                h.prove_eq(out[i], want(i, False), 'density anomaly at the node', tol=TOL, canon=True)
            if salt == 'field':
                for i in range(3):
                    h.prove_eq(fs.dat.data[i], S[i], 'salinity is not changed')
            if kind == 'jackett' or salt != 'field' or all(bool(s >= 0) for s in S):
                first = [out[i] for i in range(3)]
            else:
                first = None
            # the projected variant
            if salt != 'float' and temp != 'float':
                seen = {}

                class Proj:
                    def __init__(self, v, v_out, *a, **kw):
                        seen['f'], seen['out'], seen['n'] = v, v_out, 0

                    def project(self):
                        seen['n'] += 1
                        seen['s'] = [q for q in fs.dat.data] if salt == 'field' else None
                consts = [fd.Constant(1.0) for _ in k or ()]
                eos2 = eos if k is None else u3.LinearEquationOfState(*consts)
                with patched((u3, 'Projector', Proj)):
                    w = u3.DensitySolverWeak(fs, ft, rho, eos2)
                    w.solve()
                h.prove(seen['out'] is rho and seen['n'] == 1, 'projected on the density field, once')
                for i in range(3):
                    if salt == 'field':
                        h.prove_eq(seen['s'][i], S[i] if bool(S[i] >= 0) else 0, 'negative salinity is clipped before the projection')
                for i in range(3):
                    with Point(h, H.mesh(), 'dx', name=f'n{i}') as pt:
                        for c, v in zip(consts, k or ()):
                            pt.setconst(c, v)
                        for f, v in ((fs, seen['s']), (ft, T)):
                            if isinstance(f, fd.Function):
                                pt.coeff(f, f'f{i}{f is fs}')
                                pt.set(f, val=v[i])
                        g = pt.expr(seen['f'])
                        h.prove_eq(g, want(i, True), 'expression that is projected', tol=TOL, canon=True)
                        if first is not None:
                            h.prove_eq(g, first[i], 'same as the point-wise density', tol=TOL, canon=True)
    return run


def wrong_space(h):
    G = get_functionspace(H.mesh(), 'CG', 1)
    for a, b in ((G, H), (H, G)):
        try:
            u3.DensitySolver(fd.Function(a), fd.Function(b), fd.Function(H), u3.JackettEquationOfState())
            ok = True
        except AssertionError:
            ok = False
        h.prove(not ok, 'fields of other spaces are refused')


def magnitude(parts):
    """velocity magnitude used for the 3D mesh and CFL diagnostics"""
    def run(h):
        V, W = fd.VectorFunctionSpace(MESH, 'DG', 1), get_functionspace(MESH, 'DG', 1, 'DG', 1)
        sol = fd.Function(W)
        u = fd.Function(V) if 'u' in parts else None
        w = fd.Function(V)[2] if 'w' in parts else None
        seen = {}

        class Prob:
            def __init__(self, a, l, s, **kw):
                seen.update(a=a, l=l, s=s)

        class Sol:
            def __init__(self, prob, **kw):
                pass

            def solve(self):
                seen['solved'] = True
        with patched((u3, 'LinearVariationalProblem', Prob), (u3, 'LinearVariationalSolver', Sol)):
            m = u3.VelocityMagnitudeSolver(sol, u=u, w=w, min_val=0.25)
            n = 2
            vals = [h.real(f'v{i}', lo=-3, hi=3) for i in range(6)]
            if h.symbolic:
                sol2 = SF(W, val=arr(h, vals))
                m.solution = sol2
            else:
                m.solution.dat.data[:] = vals
            m.solve()
            got = m.solution.dat.data
        h.prove(seen['s'] is sol and seen.get('solved'), 'solved for the magnitude')
        for g, v in zip(got, vals):
            h.prove(g >= 0.25, 'not below the minimum')
            h.prove_eq(g, v if bool(v >= 0.25) else 0.25, 'clipped from below only')
        return
    return run


for k in ('scalar', 'array'):
    ck.harness(f'jackett[{k}]', jackett(k), check_domain=False)
ck.harness('published', published)
ck.harness('denominator', denominator)
ck.harness('physical', physical, max_paths=100)
ck.harness('linear', linear)
for kind in ('linear', 'jackett'):
    for s, t in (('field', 'field'), ('field', 'constant'), ('constant', 'field'), ('float', 'field'), ('field', 'float')):
        ck.harness(f'density[{kind},{s},{t}]', density(kind, s, t), max_paths=400, check_domain=False)
ck.harness('wrong_space', wrong_space)
for q in ('u', 'w', 'uw'):
    ck.harness(f'magnitude[{q}]', magnitude(q), max_paths=400)
ck.finish()
