"""C15: sources, sinks, boundary fluxes and diffusion of the turbulence equations; Pacanowski-Philander model"""
from stand import *
import math
import types
import numpy as np
import firedrake as fd
import thetis
import thetis.turbulence as tb
import thetis.tracer_eq as te
import thetis.options as topt
from thetis.utility import get_functionspace
from symx.point import Point
from symx.ufleval import *

ck = Check('C15', 'turbulence sources')
TECHNIQUE = 'symbolic execution of the real residuals of the turbulence equations at an arbitrary integration point and of the real' \
            ' Pacanowski-Philander update; z3 decides form, sign and boundedness for all values'
ck.encoded('turbulence.TKESourceTerm.residual', 'turbulence.PsiSourceTerm.residual', 'turbulence.GLSVerticalDiffusionTerm.residual',
           'turbulence.TKEEquation', 'turbulence.PsiEquation', 'turbulence.PacanowskiPhilanderModel.*')
ck.bound('one integration point of every kind; degree 0 and 1 elements; exponents of four closures')
ck.assumed('the vertical diffusion operator itself is C09')

EXPO = {'ke': (3.0, 1.5, -1.0), 'kw': (-1.0, 0.5, -1.0), 'half': (2.0, 1.0, -0.5), 'kkl': (0.0, 1.0, 1.0)}
_M = []


def mesh3():
    if not _M:
        m2 = fd.UnitTriangleMesh()
        m2.boundary_len = {1: 1.0, 2: 1.0, 3: 1.0}
        m = fd.ExtrudedMesh(m2, 2)
        m.boundary_len = m2.boundary_len
        _M.append(m)
    return _M[0]


VAL = {}


class Opt(fd.Constant):
    """an option that may be any number"""

    def __gt__(self, o):
        return VAL[id(self)] > o

    def __ge__(self, o):
        return VAL[id(self)] >= o

    def __lt__(self, o):
        return VAL[id(self)] < o

    def __le__(self, o):
        return VAL[id(self)] <= o


class M:
    def __init__(self, deg=1):
        m = self.mesh = mesh3()
        W = get_functionspace(m, 'DG', deg, 'DG', deg)
        P1 = get_functionspace(m, 'DG', 1, 'DG', 1)
        self.W = W
        for n in ('sol', 'old', 'w', 'q'):
            setattr(self, n, fd.Function(W, name=n))
        for n in ('nu', 'mu', 'eps', 'M2', 'N2n', 'N2p', 'k', 'dz', 'rough'):
            setattr(self, n, fd.Function(P1, name=n))
        self.fields = {'viscosity_v': self.nu, 'diffusivity_v': self.mu, 'epsilon': self.eps, 'shear_freq2': self.M2,
                       'buoy_freq2_neg': self.N2n, 'buoy_freq2_pos': self.N2p, 'k': self.k, 'bottom_roughness': self.rough}
        self.opt = {}
        self.o = types.SimpleNamespace()
        self.gls = types.SimpleNamespace(options=self.o)

    def options(self, h, expo):
        self.o.p, self.o.m, self.o.n = EXPO[expo]
        for n, kw in dict(schmidt_nb_psi=dict(lo=0.1, hi=4), schmidt_nb_tke=dict(lo=0.1, hi=4), c1=dict(lo=0, hi=3), c2=dict(lo=0, hi=3), c3_minus=dict(lo=-3, hi=3),
                          c3_plus=dict(lo=0, hi=3), f_wall=dict(lo=0, hi=3), cmu0=dict(lo=0.1, hi=1)).items():
            self.num(h, n, **kw)
        return self

    def num(self, h, n, **kw):
        v = h.real('opt.' + n, **kw)
        self.opt[n] = v
        c = Opt(1.0) if h.symbolic else float(v)
        VAL[id(c)] = v
        setattr(self.o, n, c)

    def point(self, h, kind, positive=True):
        P = Point(h, self.mesh, kind)
        for n in ('sol', 'old', 'w', 'q', 'nu', 'mu', 'eps', 'M2', 'N2n', 'N2p', 'k', 'dz', 'rough'):
            P.coeff(getattr(self, n))
        if h.symbolic:
            for n, c in self.opt.items():
                P.setconst(getattr(self.o, n), c)
        if positive:
            for n in ('nu', 'mu', 'eps', 'M2', 'N2p'):
                for s in P.sides:
                    h.assume(P.value(getattr(self, n), s) >= 0)
            for s in P.sides:
                h.assume(P.value(self.N2n, s) <= 0)
            for n in ('old', 'k', 'dz'):
                for s in P.sides:
                    h.assume(P.value(getattr(self, n), s) >= Fr(1, 100))
                    h.assume(P.value(getattr(self, n), s) <= 10**4)
            for s in P.sides:
                h.assume(P.value(self.rough, s) >= 0)
        return P

    def res(self, P, term, w=None, sol=None, bnd=None):
        r = term.residual(self.sol if sol is None else sol, self.old, self.fields, self.fields, bnd or {})
        return P.integral(fd.replace(r, {term.test: self.w if w is None else w}))


def tke(deg):
    mm = M(deg)

    def run(h):
        t = tb.TKESourceTerm(mm.W, mm.gls)
        P = mm.point(h, 'dx')
        v = lambda f: P.value(f)
        w = v(mm.w)
        r = mm.res(P, t)
        prod = v(mm.nu)*v(mm.M2)
        src = prod - v(mm.mu)*v(mm.N2n)
        sink = -v(mm.mu)*v(mm.N2p) - v(mm.eps)
        h.prove_eq(r*v(mm.old), (src*v(mm.old) + sink*v(mm.sol))*w, 'shear and unstable buoyancy produce, the rest is a linear sink', tol=1e-3)
        h.prove(src >= 0, 'production is not negative')
        h.prove(sink <= 0, 'the sink is not positive')
    return run


def tke_positive(h):
    """a backward Euler step of any length keeps the energy positive"""
    mm = M(0)
    t = tb.TKESourceTerm(mm.W, mm.gls)
    P = mm.point(h, 'dx')
    dt = h.real('dt', lo=0.001, hi=10**5)
    P.set(mm.w, val=[1])
    sol, old = P.value(mm.sol), P.value(mm.old)
    r = mm.res(P, t)
    h.assume_eq(sol - old, dt*r)
    h.prove(sol > 0, 'positive')


def psi(deg, expo):
    mm = M(deg)

    def run(h):
        mm.options(h, expo)
        t = tb.PsiSourceTerm(mm.W, mm.gls, v_elem_size=mm.dz)
        P = mm.point(h, 'dx')
        v = lambda f: P.value(f)
        o = mm.opt
        r = mm.res(P, t)
        stable = bool(o['c3_minus'] > 0)
        w = v(mm.w)
        src = o['c1']*v(mm.nu)*v(mm.M2) - o['c3_plus']*v(mm.mu)*v(mm.N2n)
        sink = -o['c2']*o['f_wall']*v(mm.eps)
        b = -o['c3_minus']*v(mm.mu)*v(mm.N2p)
        if stable:
            sink = sink + b
        else:
            src = src + b
        h.prove_eq(r*v(mm.k), (v(mm.old)*src + v(mm.sol)*sink)*w, 'production explicit, destruction implicit', tol=1e-3)
        h.prove(src >= 0, 'production is not negative')
        h.prove(sink <= 0, 'the sink is not positive')
    return run


def psi_positive(h):
    mm = M(0).options(h, 'ke')
    t = tb.PsiSourceTerm(mm.W, mm.gls, v_elem_size=mm.dz)
    P = mm.point(h, 'dx')
    dt = h.real('dt', lo=0.001, hi=10**5)
    P.set(mm.w, val=[1])
    sol, old = P.value(mm.sol), P.value(mm.old)
    h.assume_eq((sol - old), dt*mm.res(P, t))
    h.prove(sol > 0, 'positive')


def power(h, x, e):
    e = Fr(str(e))
    return sym_pow(x, e) if is_sym(x) else float(x)**float(e)


def psi_flux(kind, expo, rough):
    """flux of the logarithmic profile psi = cmu0^p k^m (kappa z)^n, half a cell and the roughness length off the wall"""
    mm = M(1)

    def run(h):
        mm.options(h, expo)
        if not rough:
            mm.fields['bottom_roughness'] = None
        kap = fd.Constant(0.4)
        with patched((tb, 'physical_constants', {'von_karman': kap})):
            t = tb.PsiSourceTerm(mm.W, mm.gls, v_elem_size=mm.dz)
            P = mm.point(h, kind)
            kv = P.constant(kap, 'kappa', lo=0.1, hi=1)
            r = mm.res(P, t)
        p, m, n = EXPO[expo]
        v = lambda f: P.value(f)
        z = v(mm.dz)/2 + ((v(mm.rough) if rough else 0) if kind == 'ds_b' else Fr(5, 100))
        h.assume(v(mm.nu) <= 10)
        h.assume(v(mm.rough) <= 10)
        o = mm.opt
        slope = (Fr(str(n)) if h.symbolic else n)*power(h, o['cmu0'], p)*power(h, v(mm.k), m)*power(h, kv, n)*power(h, z, n - 1)
        if kind == 'ds_t':
            slope = -slope
        h.prove_eq(r*o['schmidt_nb_psi'], v(mm.nu)*slope*P.n[2]*v(mm.w), 'wall flux', tol=1e-2)
    return run


def no_flux(which, kind):
    mm = M(1)

    def run(h):
        mm.options(h, 'ke')
        t = tb.TKESourceTerm(mm.W, mm.gls, v_elem_size=mm.dz) if which == 'tke' else tb.PsiSourceTerm(mm.W, mm.gls, v_elem_size=mm.dz)
        P = mm.point(h, kind)
        h.prove_eq(mm.res(P, t), 0, 'no contribution')
    return run


def refuses(h):
    mm = M(0).options(h, 'ke')
    h.real('x', lo=0, hi=1)
    ok = False
    try:
        tb.PsiSourceTerm(mm.W, mm.gls).residual(mm.sol, mm.old, mm.fields, mm.fields, {})
    except Exception as e:
        ok = 'v_elem_size' in str(e)
    h.prove(ok, 'element height is required')


def negative_c3(h):
    mm = M(0).options(h, 'ke')
    mm.num(h, 'c3_plus', lo=-3, hi=3)
    t = tb.PsiSourceTerm(mm.W, mm.gls, v_elem_size=mm.dz)
    try:
        t.residual(mm.sol, mm.old, mm.fields, mm.fields, {})
        ok = True
    except AssertionError:
        ok = False
    h.prove(ok == bool(mm.opt['c3_plus'] >= 0), 'negative c3_plus is refused')


def diffusion(which, kind, deg):
    """diffusivity is eddy viscosity over Schmidt number"""
    mm = M(deg)
    D = fd.Function(mm.nu.function_space(), name='D')

    def run(h):
        mm.options(h, 'ke')
        sigma = 'schmidt_nb_' + which
        s = getattr(mm.o, sigma)
        fac = fd.Constant(1.0)
        t = tb.GLSVerticalDiffusionTerm(mm.W, s, None, mm.dz, None, sipg_factor=fac)
        ref = te.VerticalDiffusionTerm(mm.W, None, mm.dz, None, sipg_factor_vertical=fac)
        P = mm.point(h, kind)
        P.constant(fac, 'sipg', lo=0.1, hi=10)
        sv = mm.opt[sigma]
        for sd in P.sides:
            h.assume(P.value(mm.nu, sd) <= 10)
            P.set(D, sd, [P.value(mm.nu, sd)/sv])
        r = mm.res(P, t)
        q = ref.residual(mm.sol, mm.old, {'diffusivity_v': D}, {'diffusivity_v': D}, {})
        h.prove_eq(r, P.integral(fd.replace(q, {ref.test: mm.w})), 'vertical diffusion', tol=1e-3)
    return run


def equation(which, kind):
    mm = M(1)

    def run(h):
        mm.options(h, 'ke')
        E, S, s = (tb.TKEEquation, tb.TKESourceTerm, 'schmidt_nb_tke') if which == 'tke' else (tb.PsiEquation, tb.PsiSourceTerm, 'schmidt_nb_psi')
        e = E(mm.W, mm.gls, None, mm.dz, None)
        src = S(mm.W, mm.gls, None, mm.dz, None)
        dif = tb.GLSVerticalDiffusionTerm(mm.W, getattr(mm.o, s), None, mm.dz, None)
        P = mm.point(h, kind)
        if h.symbolic:
            for f in (mm.nu, mm.mu, mm.eps, mm.M2, mm.N2p):
                for sd in P.sides:
                    h.assume(P.value(f, sd) <= 10)
        tot = e.residual('implicit', mm.sol, mm.old, mm.fields, mm.fields, {})
        a = P.integral(fd.replace(tot, {e.test: mm.w}))
        h.prove_eq(a, mm.res(P, src) + mm.res(P, dif), 'sources and diffusion', tol=1e-3)
        for l in ('explicit', 'source', 'nonlinear'):
            r = e.residual(l, mm.sol, mm.old, mm.fields, mm.fields, {})
            h.prove(not hasattr(r, 'integrals'), f'no {l} terms')
    return run


# ---- Pacanowski-Philander ---------------------------------------------------------------------------------------------------------
class A:
    """nodal field"""

    def __init__(self, v, sym=False):
        self.a = np.array(v, dtype=object if sym else float)
        self.dat = types.SimpleNamespace(data=self.a, data_ro=self.a)

    def assign(self, v):
        self.a[:] = v

    def function_space(self):
        return None


def pp(expo):
    def run(h):
        g = object.__new__(tb.PacanowskiPhilanderModel)
        n = 2
        n2 = [h.real(f'n2{i}', lo=0, hi=1) for i in range(n)]
        m2 = [h.real(f'm2{i}', lo=0.001, hi=1) for i in range(n)]
        mx, al = h.real('max', lo=0.001, hi=1), h.real('alpha', lo=0, hi=100)
        g.options = types.SimpleNamespace(max_viscosity=mx, alpha=al, exponent=expo)
        g.n2_pos, g.m2 = A(n2, h.symbolic), A(m2, h.symbolic)
        g.n2 = A([h.real(f'raw{i}', lo=-1, hi=1) for i in range(n)], h.symbolic)
        g.viscosity, g.diffusivity = A([0.0]*n, h.symbolic), A([0.0]*n, h.symbolic)
        g.postprocess()
        V, D = list(g.viscosity.a), list(g.diffusivity.a)
        for i in range(n):
            d = 1 + al*n2[i]/m2[i]
            de = power(h, d, expo)
            h.prove_eq(V[i]*de, mx, 'viscosity', tol=1e-8, canon=True)
            h.prove_eq(D[i]*d, V[i], 'diffusivity', tol=1e-8, canon=True)
            h.prove(V[i] > 0, 'viscosity is positive')
            h.prove(D[i] > 0, 'diffusivity is positive')
            h.prove_le(V[i], mx, 'viscosity is bounded')
            h.prove_le(D[i], V[i], 'diffusivity does not exceed viscosity')
            h.prove_eq(g.n2_pos.a[i], n2[i], 'stratification is not changed')
            h.prove_eq(g.m2.a[i], m2[i], 'shear is not changed')
        if n2[0] is not n2[1] and expo == 2.0 and bool(n2[0]*m2[1] <= n2[1]*m2[0]):
            h.prove_le(D[1]*(1 + al*n2[1]/m2[1]), D[0]*(1 + al*n2[0]/m2[0]), 'decreases with the Richardson number', tol=1e-9)
    return run


def pp_split(h):
    g = object.__new__(tb.PacanowskiPhilanderModel)
    log = []
    rec = lambda nm: types.SimpleNamespace(solve=lambda init_solve=False: log.append((nm, init_solve)))
    rho = h.choice('rho', [True, False])
    init = h.choice('init', [True, False])
    g.shear_frequency_solver, g.buoy_frequency_solver, g.rho = rec('shear'), rec('buoy'), object() if rho else None
    v, old = [h.real(f'n2{i}', lo=-1, hi=1) for i in range(2)], [h.real(f'o{i}', lo=0, hi=1) for i in range(2)]
    g.n2, g.n2_pos = A(v, h.symbolic), A(old, h.symbolic)
    g.preprocess(init_solve=init)
    h.prove(log == [('shear', init)] + ([('buoy', init)] if rho else []), 'frequencies')
    for i in range(2):
        x = g.n2_pos.a[i]
        if rho:
            h.prove_eq(x, v[i] if bool(v[i] >= 0) else 0, 'unstable stratification counts as none', tol=1e-11)
            h.prove_ge(x, 0, 'not negative')
        else:
            h.prove_eq(x, old[i], 'kept')


def pp_constructor(h):
    mx, al, ex = h.real('max', lo=0.01, hi=1), h.real('alpha', lo=0.1, hi=100), h.real('exp', lo=0.5, hi=4)
    rho = h.choice('rho', [True, False])
    use = h.choice('options', [True, False])
    o = topt.PacanowskiPhilanderModelOptions()
    if use:
        o.max_viscosity, o.alpha, o.exponent = (0.07, 7.0, 3.0)
    sol, order = [], []
    f = [A([0.0]) for _ in range(6)]
    with patched((tb, 'Function', lambda *a, **k: A([0.0])), (tb, 'print_output', lambda *a: None),
                 (tb, 'ShearFrequencySolver', lambda *a, **k: sol.append(a) or types.SimpleNamespace(solve=lambda init_solve=False: order.append('s') or f[5].assign(1.))),
                 (tb, 'BuoyFrequencySolver', lambda *a, **k: sol.append(a) or types.SimpleNamespace(solve=lambda init_solve=False: order.append('b')))):
        g = tb.PacanowskiPhilanderModel('s', f[0], f[1] if rho else None, f[2], f[3], f[4], f[5], options=o if use else None)
    h.prove((g.options.max_viscosity, g.options.alpha, g.options.exponent) == ((.07, 7., 3.) if use else (.05, 10., 2.)), 'options')
    h.prove(sol[0][0] is f[0] and sol[0][1] is f[5], 'shear of the velocity')
    h.prove(len(sol) == (2 if rho else 1) and (not rho or (sol[1][0] is f[1] and sol[1][1] is f[4])), 'stratification of the density')
    h.prove(order == (['s', 'b'] if rho else ['s']), 'initial frequencies')
    h.prove(abs(f[3].a[0] - (.07 if use else .05)) < 1e-9 and abs(f[2].a[0] - f[3].a[0]) < 1e-9, 'initial viscosity is the neutral one')


for d in (0, 1):
    ck.harness(f'tke[{d}]', tke(d))
    ck.harness(f'psi[{d}]', psi(d, 'ke'), expect_paths=2)
ck.harness('tke-positive', tke_positive)
ck.harness('psi-positive', psi_positive, expect_paths=2)
for e in EXPO:
    for k in ('ds_b', 'ds_t'):
        for r in (True, False):
            ck.harness(f'psi-flux[{e},{k},{"rough" if r else "smooth"}]', psi_flux(k, e, r), expect_paths=1)
for k in ('dS_h', 'dS_v', 'ds_t', 'ds_b'):
    ck.harness(f'tke-facet[{k}]', no_flux('tke', k))
for k in ('dS_h', 'dS_v'):
    ck.harness(f'psi-facet[{k}]', no_flux('psi', k))
ck.harness('height', refuses, expect_paths=1)
ck.harness('c3-plus', negative_c3, expect_paths=2)
for k in ('dx', 'dS_h', 'dS_v', 'ds_t', 'ds_b'):
    for w in ('tke', 'psi'):
        for d in (0, 1):
            ck.harness(f'diffusion[{w},{k},{d}]', diffusion(w, k, d))
        ck.harness(f'equation[{w},{k}]', equation(w, k))
for e in (2.0, 1.0, 0.5):
    ck.harness(f'pp[{e}]', pp(e))
ck.harness('pp-split', pp_split, expect_paths=4)
ck.harness('pp-constructor', pp_constructor, expect_paths=4)
ck.finish()
