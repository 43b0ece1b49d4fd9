"""C14: turbulence closure stability functions"""
from stand import *
import math
import warnings
import numpy as np
import scipy.optimize
import thetis.stability_functions as sf

ck = Check('C14', 'stability', timeout_ms=30000)
TECHNIQUE = 'symbolic execution of the real stability function classes on symbolic coefficients, frequencies and parameters; z3 decides the' \
            ' defining relations of every derived constant and the sign of every function on the clipped range'
ck.encoded('stability_functions.StabilityFunctionBase.*', 'stability_functions.GOTMStabilityFunctionBase.__init__',
           'stability_functions.CanutoStabilityFunctionBase.*', 'stability_functions.ChengStabilityFunctionBase.*',
           'stability_functions.compute_normalized_frequencies', 'shipped parameter sets')
ck.bound('arrays of up to three points; |buoyancy number| <= 10^5; steady-state relations for -1 <= Ri <= 0.25 (Kantha-Clayson 0.2,'
         ' beyond which it has no steady state)')
ck.assumed('scipy.optimize.minimize is a stand-in that returns an arbitrary root of the cost function it is given;'
           ' parameters are those printed in Umlauf and Burchard (2005) table 1 and in the papers of the original closures')

D = [f'd{i}' for i in range(6)]
N = [f'n{i}' for i in range(3)]
NB = [f'nb{i}' for i in range(3)]
SHIPPED = {'canutoA': sf.StabilityFunctionCanutoA, 'canutoB': sf.StabilityFunctionCanutoB, 'cheng': sf.StabilityFunctionCheng,
           'gotmA': sf.GOTMStabilityFunctionCanutoA, 'gotmB': sf.GOTMStabilityFunctionCanutoB,
           'gotmKC': sf.GOTMStabilityFunctionKanthaClayson, 'gotmCheng': sf.GOTMStabilityFunctionCheng}


class Plain(sf.StabilityFunctionBase):
    name = 'plain'


def coefs(h, f, den=True):
    for n in D + N + NB:
        setattr(f, n, h.real(n, lo=-50, hi=50))
    return f


def polys(f, an, am):
    den = f.d0 + f.d1*an + f.d2*am + f.d3*an*am + f.d4*an*an + f.d5*am*am
    return den, f.n0 + f.n1*an + f.n2*am, f.nb0 + f.nb1*an + f.nb2*am


def k_(h, x):
    return frac(float(x)) if h.symbolic else x


def arr(h, v):
    return np.array(v, dtype=object if h.symbolic else float)


# ---- the rational functions ------------------------------------------------------------------------------------------------
def functions(h):
    f = coefs(h, Plain())
    an, am = h.real('an', lo=-10, hi=100), h.real('am', lo=0, hi=100)
    den, nm, nh = polys(f, an, am)
    h.assume(den*den >= Fr(1, 100))
    sm, sh = f.eval_funcs(an, am)
    h.prove_eq(sm*den, nm, 'momentum function', tol=1e-6, canon=True)
    h.prove_eq(sh*den, nh, 'tracer function', tol=1e-6, canon=True)


def frequencies(h):
    n2, m2 = h.real('n2', lo=-1, hi=1), h.real('m2', lo=0, hi=1)
    k, e = h.real('k', lo=0.01, hi=1), h.real('eps', lo=0.01, hi=1)
    an, am = sf.compute_normalized_frequencies(m2, n2, k, e)
    h.prove_eq(an*e*e, k*k*n2, 'buoyancy number', tol=1e-8, canon=True)
    h.prove_eq(am*e*e, k*k*m2, 'shear number', tol=1e-8, canon=True)


CC = ['cc1', 'cc2', 'cc3', 'cc4', 'cc5', 'cc6', 'cb1', 'cb2', 'cb3', 'cb4', 'cb5', 'cbb']


def gotm(h):
    """Umlauf and Burchard (2005) eqs. A.9-A.12"""
    v = {n: h.real(n, lo=-2, hi=7) for n in CC}
    cls = type('T', (sf.GOTMStabilityFunctionBase,), dict(v, name='t'))
    f = cls()
    q = Fr if h.symbolic else (lambda a, b=1: a/b)
    a1 = k_(h, 2.0/3.0) - v['cc2']/2
    a2, a3, a4, a5 = 1 - v['cc3']/2, 1 - v['cc4']/2, v['cc5']/2, q(1, 2) - v['cc6']/2
    b1, b2, b3, b5 = 1 - v['cb2'], 1 - v['cb3'], 2*(1 - v['cb4']), 2*v['cbb']*(1 - v['cb5'])
    P, B = v['cc1']/2, v['cb1']
    R = {'d0': 36*P*P*P*B*B,
         'd1': 84*a5*b3*P*P*B + 36*b5*P*P*P*B,
         'd2': 9*(b2*b2 - b1*b1)*P*P*P - 12*(a2*a2 - 3*a3*a3)*P*B*B,
         'd3': 12*a5*b3*(a2*b1 - 3*a3*b2)*P + 12*a5*b3*(a3*a3 - a2*a2)*B + 12*b5*(3*a3*a3 - a2*a2)*P*B,
         'd4': 48*a5*a5*b3*b3*P + 36*a5*b3*b5*P*P,
         'd5': 3*(a2*a2 - 3*a3*a3)*(b1*b1 - b2*b2)*P,
         'n0': 36*a1*P*P*B*B,
         'n1': -12*a5*b3*(b1 + b2)*P*P + 8*a5*b3*(6*a1 - a2 - 3*a3)*P*B + 36*a1*b5*P*P*B,
         'n2': 9*a1*(b2*b2 - b1*b1)*P*P,
         'nb0': 12*b3*P*P*P*B,
         'nb1': 12*a5*b3*b3*P*P,
         'nb2': 9*a1*b3*(b1 - b2)*P*P + (6*a1*(a2 - 3*a3) - 4*(a2*a2 - 3*a3*a3))*b3*P*B}
    for n, r in R.items():
        h.prove_eq(getattr(f, n), r, n, canon=True, tol=1e-7)


def original(kind):
    """Canuto et al. (2001) eqs. 18; Cheng et al. (2002) is the same system divided by 3 l5^2"""
    base = sf.CanutoStabilityFunctionBase if kind == 'canuto' else sf.ChengStabilityFunctionBase

    def run(h):
        v = {f'l{i}': h.real(f'l{i}', lo=(1 if i == 5 else 0), hi=(12 if i == 5 else 1)) for i in range(1, 9)}
        f = type('T', (base,), dict(v, name='t'))()
        l1, l2, l3, l4, l5, l6, l7, l8 = (v[f'l{i}'] for i in range(1, 9))
        q = Fr if h.symbolic else (lambda a, b=1: a/b)
        R = {'n0': q(3, 2)*l1*l5*l5,
             'n1': -l4*(l6 + l7) + 2*l4*l5*(l1 - l2/3 - l3) + q(3, 2)*l1*l5*l8,
             'n2': -q(3, 8)*l1*(l6*l6 - l7*l7),
             'nb0': 2*l5, 'nb1': 2*l4,
             'nb2': q(2, 3)*l5*(3*l3*l3 - l2*l2) - q(1, 2)*l5*l1*(3*l3 - l2) + q(3, 4)*l1*(l6 - l7),
             'd0': 3*l5*l5, 'd1': l5*(7*l4 + 3*l8),
             'd2': l5*l5*(3*l3*l3 - l2*l2) - q(3, 4)*(l6*l6 - l7*l7),
             'd4': l4*(4*l4 + 3*l8),
             'd3': l4*(l2*l6 - 3*l3*l7 - l5*(l2*l2 - l3*l3)) + l5*l8*(3*l3*l3 - l2*l2),
             'd5': q(1, 4)*(l2*l2 - 3*l3*l3)*(l6*l6 - l7*l7)}
        # tau = 2 k/eps, viscosity = 2 k^2/eps S
        pw = {'n0': 2, 'nb0': 2, 'd0': 1, 'n1': 8, 'n2': 8, 'nb1': 8, 'nb2': 8, 'd1': 4, 'd2': 4, 'd3': 16, 'd4': 16, 'd5': 16}
        s = 1 if kind == 'canuto' else 3*l5*l5
        for n, r in R.items():
            h.prove_eq(getattr(f, n)*s, pw[n]*r, n, canon=True, tol=1e-9)
    return run


def variant(kind):
    """the two ways of evaluating an original closure agree"""
    base = sf.CanutoStabilityFunctionBase if kind == 'canuto' else sf.ChengStabilityFunctionBase

    def run(h):
        v = {f'l{i}': h.real(f'l{i}', lo=(1 if i == 5 else 0), hi=(12 if i == 5 else 1)) for i in range(1, 9)}
        f = type('T', (base,), dict(v, name='t'))()
        an, am = h.real('an', lo=-1, hi=10), h.real('am', lo=0, hi=10)
        den, nm, nh = polys(f, an, am)
        h.assume(den >= Fr(1, 100))
        c, d = f.eval_funcs_new(an, am)
        h.prove_eq(c*den, nm, 'momentum function', tol=1e-9, canon=True)
        h.prove_eq(d*den, nh, 'tracer function', tol=1e-9, canon=True)
    return run


PUBLISHED = {'gotmA': (5, .8, 1.968, 1.136, 0, .4, 5.95, .6, 1, 0, .3333, .72),
             'gotmB': (5, .6983, 1.9664, 1.094, 0, .495, 5.6, .6, 1, 0, .3333, .477),
             'gotmCheng': (5, .7983, 1.968, 1.136, 0, .5, 5.52, .2134, .357, 0, .3333, .82),
             'gotmKC': (6, .32, 0, 0, 0, 0, 3.728, .7, .7, 0, .2, .6102),
             'canutoA': (.107, .0032, .0864, .12, 11.9, .4, 0, .48),
             'canutoB': (.127, .00336, .0906, .101, 11.2, .4, 0, .318),
             'cheng': (.107, .0032, .0864, .1, 11.04, .786, .643, .547)}
NEUTRAL = {'canutoA': .527, 'canutoB': .554, 'cheng': .527, 'gotmA': .527, 'gotmB': .554, 'gotmCheng': .527, 'gotmKC': .5549}
ANMIN = {'canutoA': -3.0565, 'canutoB': -3.5623, 'cheng': -2.7228, 'gotmA': -3.0564, 'gotmB': -3.5623, 'gotmCheng': -2.7236, 'gotmKC': -1.7859}


def tables(h):
    for k, v in PUBLISHED.items():
        for n, x in zip(CC if k.startswith('gotm') else [f'l{i}' for i in range(1, 9)], v):
            h.prove(getattr(SHIPPED[k], n) == x, f'{k} {n}')
        h.prove(abs(SHIPPED[k]().compute_cmu0() - NEUTRAL[k]) < 2e-3, f'{k} neutral constant')
        h.prove(abs(SHIPPED[k]().get_alpha_buoy_min() - ANMIN[k]) < 1e-3, f'{k} smallest buoyancy number')


def same_closure(h):
    """the two published forms of a closure are the same functions, within the rounding of their printed parameters"""
    for a, b in (('canutoA', 'gotmA'), ('canutoB', 'gotmB'), ('cheng', 'gotmCheng')):
        f, g = SHIPPED[a](), SHIPPED[b]()
        for n in D + N + NB:
            x, y = getattr(f, n)/f.d0, getattr(g, n)/g.d0
            h.prove(abs(x - y) <= 0.02*abs(y), f'{b} {n}')


# ---- limits ------------------------------------------------------------------------------------------------------------------
def shear_max(h):
    f = coefs(h, Plain())
    an = h.real('an', lo=-10, hi=100)
    am = h.real('am', lo=0, hi=10)
    num = f.n0 + f.n1*an
    dd = f.d2 + f.d3*an
    h.assume(num*num >= Fr(1, 100))
    h.assume(dd*dd >= Fr(1, 100))
    r = f.get_alpha_shear_max(an, am)
    h.prove_eq(r*dd, f.d0 + f.d1*an + f.d4*an*an, 'largest shear number', tol=1e-6, canon=True)


def buoy_min(h):
    """S_h aN = -1 without shear"""
    f = Plain()
    for n in ('d0', 'd1', 'd4', 'nb0', 'nb1'):
        setattr(f, n, h.real(n, lo=0, hi=10))
    f.d0 = 1.0
    a, b = f.d4 + f.nb1, f.d1 + f.nb0
    h.assume(a >= Fr(1, 100))
    h.assume(b*b - 4*f.d0*a >= Fr(1, 1000))
    x = f.get_alpha_buoy_min()
    h.prove_eq(f.d0 + b*x + a*x*x, 0, 'production by convection balances dissipation', tol=1e-9)
    h.prove(2*a*x + b >= 0, 'the root closest to neutral')


def buoy_min_shipped(kind):
    def run(h):
        f = SHIPPED[kind]()
        an = f.get_alpha_buoy_min()
        sm, sh = f.eval_funcs(an, 0.)
        h.prove(abs(sh*an + 1) < 1e-9, 'tracer flux at smallest buoyancy number')
        x = h.real('an', hi=0)
        h.assume(x >= frac(float(an)) if h.symbolic else x >= an)
        den, _, nh = polys(f, x, 0)
        h.prove(den >= Fr(1, 100)*frac(float(f.d0)) if h.symbolic else den >= .01*f.d0, 'denominator without shear')
        h.prove(-nh*x <= den + 1e-9*f.d0, 'convective production does not exceed dissipation')
    return run


def smooth_min(h):
    f = Plain()
    m = h.real('min', lo=-10, hi=-1)
    crit = h.real('crit', lo=-9.5, hi=-0.1)
    h.assume(crit >= m + Fr(1, 10))
    f.get_alpha_buoy_min = lambda: m
    f.alpha_buoy_crit = crit
    x = h.real('an', lo=-1000, hi=0)
    h.assume(x <= crit)
    r = f.get_alpha_buoy_smooth_min(x)
    h.prove_ge(r, m, 'stays above the minimum')
    h.prove_le(r, crit, 'stays below the critical number')
    y = h.real('an2', lo=-1000, hi=0)
    h.assume(y <= crit)
    h.assume(y >= x)
    h.prove_ge(f.get_alpha_buoy_smooth_min(y), r, 'keeps the order', tol=1e-9)
    h.prove_eq(f.get_alpha_buoy_smooth_min(crit), crit, 'continuous at the critical number')
    e = h.real('e', lo=0.0001, hi=0.001)
    h.prove_le(crit - f.get_alpha_buoy_smooth_min(crit - e), e, 'smooth at the critical number')
    h.prove_ge(crit - f.get_alpha_buoy_smooth_min(crit - e), e*Fr(98, 100), 'smooth at the critical number')


def evaluate(shear, buoy, smooth, n=2):
    def run(h):
        f = SHIPPED['gotmA'](lim_alpha_shear=shear, lim_alpha_buoy=buoy, smooth_alpha_buoy_lim=smooth, alpha_buoy_crit=-1.2)
        rec = []

        def ef(an, am):
            rec.append((list(np.asarray(an).flat), list(np.asarray(am).flat)))
            return an, am
        f.eval_funcs = ef
        f.get_alpha_shear_max = lambda an, am: 40 + 2*an + am/100
        n2 = [h.real(f'n2{i}', lo=-50, hi=50) for i in range(n)]
        m2 = [h.real(f'm2{i}', lo=0, hi=200) for i in range(n)]
        one = [1.0]*n
        a, b, c, d = arr(h, m2), arr(h, n2), arr(h, one), arr(h, one)
        r = f.evaluate(a, b, c, d)
        for i in range(n):
            h.prove_eq(a[i], m2[i], 'shear frequency is not changed')
            h.prove_eq(b[i], n2[i], 'buoyancy frequency is not changed')
        an, am = rec[0]
        h.prove(len(rec) == 1, 'evaluated once')
        mn = float(f.get_alpha_buoy_min())
        for i in range(n):
            x = n2[i]
            if buoy:
                if smooth:
                    if bool(x < -1.2):
                        x = x - (x + 1.2)*(x + 1.2)/(x + mn + 2.4)
                elif bool(x < mn):
                    x = mn
            h.prove_eq(an[i], x, f'buoyancy number {i}', tol=1e-9)
            y = m2[i]
            if shear:
                mx = f.get_alpha_shear_max(x, y)
                if bool(y > mx):
                    y = mx
            h.prove_eq(am[i], y, f'shear number {i}', tol=1e-7)
            h.prove(r[0].flat[i] is an[i] if h.symbolic else r[0].flat[i] == an[i], 'returned')
    return run


def positive(kind):
    """on the clipped range everything is positive"""
    def run(h):
        f = SHIPPED[kind]()
        d0 = float(f.d0)
        for nm in D + N + NB:
            setattr(f, nm, getattr(f, nm)/d0)
        for nm in D + N + NB:   # normalised, rounded to 12 digits: the sign of the functions does not hang on more
            setattr(f, nm, float(f'{getattr(f, nm):.12g}'))
        mn = float(f'{float(SHIPPED[kind]().get_alpha_buoy_min()):.9g}')
        rng = h.choice('range', ['unstable', 'weak', 'strong'])
        an = h.real('an', **{'unstable': dict(lo=mn, hi=0), 'weak': dict(lo=0, hi=10), 'strong': dict(lo=10, hi=100000)}[rng])
        am = h.real('am', lo=0)
        dd = f.d2 + f.d3*an
        h.prove(dd > 0, 'limit is finite')
        h.assume(am*dd <= f.d0 + f.d1*an + f.d4*an*an)
        den, nm, nh = polys(f, an, am)
        h.prove(den >= Fr(1, 10) if h.symbolic else den >= .1, 'denominator')
        h.prove(nm > 0, 'momentum function')
        h.prove(nh > 0, 'tracer function')
    return run


# ---- steady state --------------------------------------------------------------------------------------------------------------
def steady(h):
    """general coefficients"""
    f = Plain()
    ri = h.real('ri', lo=-1, hi=1)
    for n in D + N + NB:
        setattr(f, n, h.real(n, lo=-5, hi=5))
    f.d0 = 1.0
    a = -f.d5 + f.n2 - (f.d3 - f.n1 + f.nb2)*ri - (f.d4 + f.nb1)*ri*ri
    b = -f.d2 + f.n0 - (f.d1 + f.nb0)*ri
    h.assume(b*b + 4*a >= Fr(1, 100))
    h.assume(b >= Fr(1, 100))
    am = f.compute_alpha_shear_steady(ri)
    h.prove_eq(a*am*am + b*am, 1, 'production balances dissipation', tol=1e-9)
    h.prove(am >= 0, 'shear number is positive')
    an = ri*am
    den, nm, nh = polys(f, an, am)
    if h.symbolic:
        h.prove_eq(den + a*am*am + b*am - 1, nm*am - nh*an, 'balance of the functions', canon=True)
    else:
        h.prove_eq(den, nm*am - nh*an, 'balance of the functions', tol=1e-6)


def steady_shipped(kind):
    def run(h):
        f = SHIPPED[kind]()
        ri = h.real('ri', lo=-1, hi=0.2 if kind == 'gotmKC' else 0.25)
        am = f.compute_alpha_shear_steady(ri)
        a = frac if h.symbolic else float
        A = -f.d5 + f.n2 - (f.d3 - f.n1 + f.nb2)*ri - (f.d4 + f.nb1)*ri*ri
        B = -f.d2 + f.n0 - (f.d1 + f.nb0)*ri
        h.prove_eq((A*am*am + B*am)/a(float(f.d0)), 1, 'production balances dissipation', tol=1e-6)
        h.prove(am > 0, 'shear number is positive')
        if kind != 'gotmKC':
            h.prove(am < 50, 'shear number is bounded')
    return run


class Root:
    """scipy result"""

    def __init__(self, x, ok=True):
        self.x, self.success = [x], ok


def minimise(h, rec=None, lo=0.5, hi=500):
    """arbitrary root of the cost function"""
    def minimize(cost, x0):
        x = h.real('root', lo=lo, hi=hi)
        c = cost(x)
        h.assume_eq(c, 0)
        if rec is not None:
            rec.append(x)
        return Root(x)
    return minimize


def numeric(kind, what):
    def run(h):
        f = SHIPPED[kind]()
        d0 = frac(float(f.d0)) if h.symbolic else float(f.d0)
        ri = h.real('ri', lo=-1, hi=0.2) if what == 'steady' else 0
        if h.symbolic:
            rec = []

            def minimize(cost, x0):
                x = h.real('root', lo=0.5, hi=500)
                an = ri*x
                den = polys(f, an, x)[0]
                h.assume(den >= d0/100)
                # cost is a square that vanishes at the solution
                h.assume_eq(cost(x), 0)
                rec.append(x)
                return Root(x)
            with patched((sf, 'minimize', minimize)):
                r = f.compute_alpha_shear_steady(ri, analytical=False) if what == 'steady' else f.compute_cmu0(analytical=False)
            am = rec[0]
            if what == 'steady':
                h.prove(r is am, 'the root is returned')
        else:
            r = f.compute_alpha_shear_steady(ri, analytical=False) if what == 'steady' else f.compute_cmu0(analytical=False)
            am = r if what == 'steady' else f.compute_alpha_shear_steady(0.)
        an = ri*am
        den, nm, nh = polys(f, an, am)
        h.prove_eq((nm*am - nh*an)/d0, den/d0, 'production balances dissipation', tol=1e-6 if h.symbolic else 1e-1)
        if what == 'neutral':
            q = r*r
            h.prove_eq(q*q*den/d0, nm/d0, 'neutral constant', tol=1e-6 if h.symbolic else 1e-3)
    return run


def failing(h):
    """a search that does not converge is not used"""
    f = SHIPPED['gotmA']()
    what = h.choice('what', ['steady', 'neutral'])
    with patched((sf, 'minimize', lambda c, x: Root(h.real('x', lo=1, hi=2), False))):
        try:
            f.compute_alpha_shear_steady(0.1, analytical=False) if what == 'steady' else f.compute_cmu0(analytical=False)
            ok = False
        except AssertionError:
            ok = True
    h.prove(ok, 'failed search is refused')


def neutral(h):
    """general coefficients"""
    f = Plain()
    for n in ('d0', 'd2', 'd5', 'n0', 'n2'):
        setattr(f, n, h.real(n, lo=-5, hi=5))
    f.d0 = 1.0
    for n in ('d1', 'd3', 'd4', 'n1', 'nb0', 'nb1', 'nb2'):
        setattr(f, n, h.real(n, lo=-5, hi=5))
    a, b = f.n2 - f.d5, f.n0 - f.d2
    h.assume(b*b + 4*a >= Fr(1, 100))
    h.assume(b >= Fr(1, 100))
    rec = []
    ev = f.eval_funcs

    def eval_funcs(an, am):
        rec.append((an, am))
        if h.symbolic:
            return SM, SM
        return ev(an, am)
    SM = h.real('sm', lo=Fr(1, 100), hi=5) if h.symbolic else None
    f.eval_funcs = eval_funcs
    if not h.symbolic:
        am = 2/(b + math.sqrt(b*b + 4*a))
        h.assume(ev(0., am)[0] > 0)
    c = f.compute_cmu0()
    an, am = rec[-1]
    h.prove_eq(an, 0, 'neutral')
    h.prove_eq(a*am*am + b*am, 1, 'production balances dissipation', tol=1e-9)
    if h.symbolic:
        q = c*c
        h.prove_eq(q*q, SM, 'fourth root of the momentum function', tol=1e-9)
    else:
        h.prove_eq(c**4, ev(0., am)[0], 'fourth root of the momentum function', tol=1e-9)


def neutral_shipped(kind):
    """analytical: S_m at the balance, checked for the shipped closures"""
    def run(h):
        f = SHIPPED[kind]()
        c = float(f.compute_cmu0())
        am = float(f.compute_alpha_shear_steady(0.))
        sm = f.eval_funcs(0., am)[0]
        h.prove(abs(sm*am - 1) < 1e-9, 'production balances dissipation')
        h.prove(abs(c**4 - sm) < 1e-9, 'neutral constant')
    return run


def c3(h):
    f = Plain()
    sm, sh, am = h.real('sm', lo=0.01, hi=1), h.real('sh', lo=0.01, hi=1), h.real('am', lo=0.1, hi=100)
    c1, c2 = h.real('c1', lo=-1, hi=2), h.real('c2', lo=-1, hi=2)
    ri = h.real('ri', lo=0.01, hi=0.25)
    h.assume((c2 - c1)*(c2 - c1) >= Fr(1, 100))
    rec = []

    def st(r, analytical=True):
        rec.append(r)
        return am

    def ev(an, b):
        rec.extend([an, b])
        return sm, sh
    f.compute_alpha_shear_steady = st
    f.eval_funcs = ev
    c = f.compute_c3_minus(c1, c2, ri)
    h.prove_eq(ri*sh*(c2 - c), sm*(c2 - c1), 'steady state Richardson number', tol=1e-9)
    h.prove_eq(rec[0], ri, 'steady state of the given Richardson number')
    h.prove_eq(rec[1], ri*am, 'buoyancy number')
    h.prove_eq(rec[2], am, 'shear number')


def kappa(h):
    f = Plain()
    cm, c1, c2 = h.real('cmu0', lo=0.1, hi=1), h.real('c1', lo=0, hi=1), h.real('c2', lo=0, hi=3)
    n = h.real('n', lo=-2, hi=2)
    h.assume(c2 - c1 >= Fr(1, 10))
    h.assume(n*n >= Fr(1, 100))
    s = h.real('sigma', lo=0.1, hi=5)
    k = f.compute_kappa(s, cm, n, c1, c2)
    h.prove_eq(k*k*n*n, cm*cm*s*(c2 - c1), 'von Karman constant', tol=1e-9)
    h.prove(k > 0, 'positive')
    k2 = h.real('kappa', lo=0.1, hi=1)
    s2 = f.compute_sigma_psi(k2, cm, n, c1, c2)
    h.prove_eq(s2*cm*cm*(c2 - c1), k2*k2*n*n, 'Schmidt number', tol=1e-9)
    h.prove_eq(f.compute_sigma_psi(k, cm, n, c1, c2), s, 'inverse of each other', tol=1e-9)


def clim(h):
    f = Plain()
    cm, am, ri = h.real('cmu0', lo=0.1, hi=1), h.real('am', lo=0.1, hi=100), h.real('ri', lo=0.01, hi=0.25)
    rec = []

    def st(r, analytical=True):
        rec.append(r)
        return am
    f.compute_alpha_shear_steady = st
    c = f.compute_length_clim(cm, ri)
    h.prove_eq(2*c*c, cm*cm*cm*cm*cm*cm*ri*am, 'length scale limit', tol=1e-9)
    h.prove(c >= 0, 'not negative')
    h.prove_eq(rec[0], ri, 'steady state of the given Richardson number')


ck.harness('functions', functions)
ck.harness('frequencies', frequencies)
ck.harness('gotm', gotm)
for k in ('canuto', 'cheng'):
    ck.harness(f'original[{k}]', original(k))
for k in ('canuto', 'cheng'):
    ck.harness(f'variant[{k}]', variant(k), timeout_ms=1500)
ck.harness('tables', tables, validate=False)
ck.harness('same', same_closure, validate=False)
ck.harness('shear-max', shear_max)
ck.harness('buoy-min', buoy_min)
for k in SHIPPED:
    ck.harness(f'buoy-min[{k}]', buoy_min_shipped(k))
    ck.harness(f'positive[{k}]', positive(k), expect_paths=3)
    ck.harness(f'steady[{k}]', steady_shipped(k))
    ck.harness(f'neutral[{k}]', neutral_shipped(k), validate=False)
    ck.harness(f'numeric[{k}]', numeric(k, 'steady'))
    ck.harness(f'numeric-neutral[{k}]', numeric(k, 'neutral'))
ck.harness('smooth-min', smooth_min)
for s in (True, False):
    for b, m in ((True, True), (True, False), (False, False)):
        ck.harness(f'evaluate[{"shear" if s else "-"},{"smooth" if m else "clip" if b else "-"}]', evaluate(s, b, m))
ck.harness('steady', steady)
ck.harness('neutral', neutral)
ck.harness('failing', failing, expect_paths=2, validate=False)
ck.harness('c3', c3)
ck.harness('kappa', kappa)
ck.harness('clim', clim)
ck.finish()
