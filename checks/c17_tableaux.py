"""C17: order, structure and stability of the shipped Runge-Kutta schemes, read off the live scheme classes"""
from symx.harness import *
from symx.core import *
import itertools
from fractions import Fraction as Fr
from thetis import rungekutta as rk, implicitexplicit as ie
from thetis.timeintegrator import CFL_UNCONDITIONALLY_STABLE

ck = Check('C17', 'rk-tableaux')
TECHNIQUE = 'the live tableaux are executed on symbolic test problems (elementary differentials, stage tendencies, complex' \
            ' eigenvalues are solver variables); z3 decides order, equivalence and stability for all of them'
ck.encoded('rungekutta.*Abstract (a, b, c, cfl_coeff)', 'rungekutta.butcher_to_shuosher_form', 'rungekutta.AbstractRKScheme.__init__',
           'implicitexplicit.IMEX* (erk_class, dirk_class)')
ck.bound('autonomous and non-autonomous right-hand sides with elementary differentials in [-1, 1], dt in (0, 1], order conditions'
         ' up to the documented order (<= 3)', 'linear stability for every complex eigenvalue (implicit: left half plane;'
         ' explicit: disk of radius cfl_coeff)', 'tableau entries as binary64 numbers: relations hold to 1e-9 (DIRK33: gamma'
         ' is given with 10 digits)')
ck.assumed('B-series: two right-hand sides are told apart only by their elementary differentials')
TOL = Fr(1, 10**9)

#       class, documented order, A-stable, L-stable
SCHEMES = {'ForwardEuler': (1, False, False), 'BackwardEuler': (1, True, True), 'ImplicitMidpoint': (2, True, False),
           'CrankNicolson': (2, True, False), 'DIRK22': (2, True, True), 'DIRK23': (3, True, False), 'DIRK33': (3, True, True),
           'DIRK43': (3, True, True), 'DIRKLSPUM2': (2, True, True), 'DIRKLPUM2': (2, True, True), 'SSPRK33': (3, False, False),
           'ERKLSPUM2': (2, False, False), 'ERKLPUM2': (2, False, False), 'ERKMidpoint': (2, False, False),
           'ESDIRKMidpoint': (2, True, False), 'ESDIRKTrapezoid': (2, True, False)}
EXPLICIT = ('ForwardEuler', 'SSPRK33', 'ERKLSPUM2', 'ERKLPUM2', 'ERKMidpoint')
# integrators offered to the user and the scheme they are documented to be
CLASSES = {'BackwardEuler': 'BackwardEuler', 'ImplicitMidpoint': 'ImplicitMidpoint', 'CrankNicolsonRK': 'CrankNicolson',
           'DIRK22': 'DIRK22', 'DIRK23': 'DIRK23', 'DIRK33': 'DIRK33', 'DIRK43': 'DIRK43', 'DIRKLSPUM2': 'DIRKLSPUM2',
           'DIRKLPUM2': 'DIRKLPUM2', 'BackwardEulerUForm': 'BackwardEuler', 'DIRK22UForm': 'DIRK22', 'DIRK33UForm': 'DIRK33',
           'SSPRK33': 'SSPRK33', 'ERKLSPUM2': 'ERKLSPUM2', 'ERKLPUM2': 'ERKLPUM2', 'ERKMidpoint': 'ERKMidpoint',
           'ESDIRKMidpoint': 'ESDIRKMidpoint', 'ESDIRKTrapezoid': 'ESDIRKTrapezoid', 'ERKEuler': 'ForwardEuler'}
IMEX = {'IMEXLPUM2': ('ERKLPUM2', 'DIRKLPUM2', 2), 'IMEXLSPUM2': ('ERKLSPUM2', 'DIRKLSPUM2', 2),
        'IMEXMidpoint': ('ERKMidpoint', 'ESDIRKMidpoint', 2), 'IMEXEuler': ('ERKEuler', 'BackwardEuler', 1)}


def live(cls):
    """a, b, c (exact rationals), alpha, beta of the object the integrators are built on"""
    class T(cls):
        pass
    o = T.__new__(T)
    rk.AbstractRKScheme.__init__(o)
    f = lambda x: [f(q) for q in x] if hasattr(x, '__len__') else frac(float(x))
    return o, f(o.a), f(o.b), f(o.c)


def abstract(name):
    """the abstract scheme class"""
    return getattr(rk, name + 'Abstract')


def scheme_of(cls):
    """the tableau an integrator class steps with: the first class of its MRO that defines it"""
    class T(rk.AbstractRKScheme):
        a, b, c, cfl_coeff = cls.a, cls.b, cls.c, cls.cfl_coeff
    return T


# ---- rooted trees -------------------------------------------------------------------------------------------------------
def trees(order, colours):
    """all rooted trees with ``order`` vertices, vertices coloured: (colour, sorted tuple of subtrees)"""
    if order == 1:
        return [(c, ()) for c in colours]
    out = []
    for part in partitions(order - 1):
        groups = [trees(n, colours) for n in part]
        for combo in itertools.product(*groups):
            for c in colours:
                t = (c, tuple(sorted(combo)))
                if t not in out:
                    out.append(t)
    return out


def partitions(n, m=None):
    m = m or n
    if n == 0:
        return [()]
    return [(k,) + r for k in range(min(n, m), 0, -1) for r in partitions(n - k, k)]


def order(t):
    return 1 + sum(order(s) for s in t[1])


def gamma(t):
    g = order(t)
    for s in t[1]:
        g *= gamma(s)
    return g


def sigma(t):
    s = 1
    for k, g in itertools.groupby(t[1]):
        n = len(list(g))
        for i in range(1, n + 1):
            s *= i
        s *= sigma(k)**n
    return s


def weight(t, tab):
    """elementary weight sum_i b_i Phi_i(t); tab[colour] = (a, b)"""
    n = len(tab[t[0]][1])

    def phi(t, i):
        p = Fr(1)
        for s in t[1]:
            a = tab[s[0]][0]
            p *= sum((a[i][j]*phi(s, j) for j in range(n)), Fr(0))
        return p
    return sum((tab[t[0]][1][i]*phi(t, i) for i in range(n)), Fr(0))


def order_conditions(get, p, tol):
    """the step from any state of any problem agrees with the exact flow up to dt^p"""
    def run(h):
        tab = get()
        dt = h.real('dt', gt=0, hi=1)
        for q in range(1, p + 1):
            err = 0
            for t in trees(q, sorted(tab)):
                D = h.real('D' + str(t).replace(' ', ''), lo=-1, hi=1)
                # coefficient of the elementary differential in the numerical and in the exact solution
                err = err + (weight(t, tab) - Fr(1, gamma(t)))*Fr(1, sigma(t))*D if h.symbolic else \
                    err + float((weight(t, tab) - Fr(1, gamma(t)))*Fr(1, sigma(t)))*D
            h.prove_le(err, 0, f'dt^{q} term of the error <= 0', tol=tol)
            h.prove_le(-err, 0, f'dt^{q} term of the error >= 0', tol=tol)
    return run


def one(name):
    def get():
        o, a, b, c = live(abstract(name))
        return {'f': (a, b)}
    return get


TOLS = {'DIRK33': Fr(2, 10**9)}
for n, (p, A, L) in SCHEMES.items():
    ck.harness(f'order[{n}]', order_conditions(one(n), p, TOLS.get(n, TOL)))


def pair(n):
    def get():
        cls = getattr(ie, n)
        out = {}
        for col, k in (('e', cls.erk_class), ('i', cls.dirk_class)):
            o, a, b, c = live(scheme_of(k))
            out[col] = (a, b)
        return out
    return get


for n, (e, d, p) in IMEX.items():
    ck.harness(f'imex-order[{n}]', order_conditions(pair(n), p, TOL))


def imex_structure(n):
    def run(h):
        cls = getattr(ie, n)
        e, d, p = IMEX[n]
        h.prove(cls.erk_class is getattr(rk, e), 'explicit half')
        h.prove(cls.dirk_class is getattr(rk, d), 'implicit half')
        oe, a, b, c = live(scheme_of(cls.erk_class))
        od, A, B, C = live(scheme_of(cls.dirk_class))
        h.prove(len(b) == len(B), 'same number of stages')
        # tendencies of both halves enter the final solution with the same weight: linear invariants are kept
        if n != 'IMEXEuler':
            k = h.reals('k', len(b), lo=-1, hi=1)
            m = lambda w: [q if h.symbolic else float(q) for q in w]
            d = sum((x - y)*z for x, y, z in zip(m(b), m(B), k))
            h.prove_le(d, 0, 'same weights', tol=TOL)
            h.prove_ge(d, 0, 'same weights (other sign)', tol=TOL)
        h.prove(not oe.is_implicit, 'explicit half is explicit')
        h.prove(bool(od.is_implicit), 'implicit half is implicit')
    return run


for n in IMEX:
    ck.harness(f'imex-structure[{n}]', imex_structure(n))


# ---- structure ----------------------------------------------------------------------------------------------------------
def num(h, x):
    return x if h.symbolic else float(x)


def structure(name, cls):
    def run(h):
        o, a, b, c = live(cls())
        s = len(b)
        t, dt = h.real('t'), h.real('dt', gt=0, hi=1)
        h.prove(all(a[i][j] == 0 for i in range(s) for j in range(i + 1, s)), 'stages are solved one after another')
        h.prove(bool(o.is_implicit) == (name not in EXPLICIT), 'explicit or implicit as documented')
        h.prove(o.n_stages == s and len(a) == s and len(c) == s, 'number of stages')
        # f = 1: stage value is the stage time, final value is t + dt
        for i in range(s):
            d = t + dt*sum((num(h, q) for q in a[i]), num(h, Fr(0))) - (t + num(h, c[i])*dt)
            h.prove_le(d, 0, f'stage time {i}', tol=TOL)
            h.prove_ge(d, 0, f'stage time {i} (other sign)', tol=TOL)
            h.prove_le(t + num(h, c[i])*dt, t + dt, f'stage time {i} within the step' if name != 'DIRK23' else f'stage {i}',
                       tol=1 if name == 'DIRK23' else 0)
            h.prove_ge(t + num(h, c[i])*dt, t, f'stage time {i} not before the step', tol=1 if name == 'DIRK23' else 0)
        # Shu-Osher form: same stages and same final value for arbitrary stage tendencies
        if hasattr(o, 'alpha'):
            fr = lambda x: num(h, frac(float(x)))
            F = h.reals('F', s, lo=-1, hi=1)
            u0 = h.real('u0', lo=-1, hi=1)
            imp = bool(o.is_implicit)
            A = [list(r) for r in a] + [list(b)]
            ref = [u0 + sum((num(h, A[i][j])*F[j] for j in range(s)), 0*u0) for i in range(s + 1)]
            vals = []
            for i in range(s + 1):
                if imp:
                    # u_0 = u^n, stage i is row i, its tendencies are columns 1..s
                    st = [u0] + ref[:s]
                    v = sum((fr(o.alpha[i][j])*st[j] for j in range(s + 1)), 0*u0) \
                        + sum((fr(o.beta[i][j + 1])*F[j] for j in range(s)), 0*u0)
                else:
                    if i == 0:
                        continue
                    st = ref
                    v = sum((fr(o.alpha[i][j])*st[j] for j in range(s + 1) if j < i), 0*u0) \
                        + sum((fr(o.beta[i][j])*F[j] for j in range(s)), 0*u0)
                    h.prove(all(abs(o.alpha[i][j]) == 0 for j in range(i, s + 1)), f'explicit stage {i}')
                    h.prove(all(o.beta[i][j] == 0 for j in range(s + 1) if j != i - 1), f'only the latest tendency in {i}')
                h.prove_le(v, ref[i], f'Shu-Osher stage {i} <=', tol=TOL)
                h.prove_ge(v, ref[i], f'Shu-Osher stage {i} >=', tol=TOL)
    return run


for n in SCHEMES:
    ck.harness(f'structure[{n}]', structure(n, lambda n=n: abstract(n)))


def classes(cname, name):
    """integrator classes step with the tableau they are named after"""
    def run(h):
        o, a, b, c = live(scheme_of(getattr(rk, cname)))
        O, A, B, C = live(abstract(name))
        k = h.reals('k', len(B), lo=-1, hi=1)
        h.prove(len(b) == len(B), 'stages')
        for i in range(len(B)):
            d = sum((num(h, a[i][j] - A[i][j])*k[j] for j in range(len(B))), num(h, c[i] - C[i])*k[0])
            h.prove_eq(d, 0, f'stage {i}')
        h.prove_eq(sum((num(h, b[j] - B[j])*k[j] for j in range(len(B))), 0*k[0]), 0, 'weights')
        if cname.endswith('UForm'):
            h.prove_eq(sum((num(h, a[-1][j] - b[j])*k[j] for j in range(len(B))), 0*k[0]), 0, 'final stage is the solution')
    return run


for cn, n in CLASSES.items():
    ck.harness(f'class[{cn}]', classes(cn, n))


# ---- linear stability ------------------------------------------------------------------------------------------------------
class Cx:
    def __init__(self, r, i=0):
        self.r, self.i = r, i

    def __add__(self, o):
        o = o if isinstance(o, Cx) else Cx(o)
        return Cx(self.r + o.r, self.i + o.i)
    __radd__ = __add__

    def __mul__(self, o):
        o = o if isinstance(o, Cx) else Cx(o)
        return Cx(self.r*o.r - self.i*o.i, self.r*o.i + self.i*o.r)
    __rmul__ = __mul__

    def __sub__(self, o):
        return self + (-1)*o if isinstance(o, Cx) else Cx(self.r - o, self.i)

    def __rsub__(self, o):
        return Cx(o - self.r, -self.i)

    def abs2(self):
        return self.r*self.r + self.i*self.i


def growth(h, a, b, z):
    """numerator and denominator of u^{n+1}/u^n for u' = z/dt u"""
    s = len(b)
    q = lambda x: num(h, x)
    D = [1 - q(a[i][i])*z for i in range(s)]
    # g_i = N_i / prod_{j<=i} D_j
    N = []
    for i in range(s):
        n = Cx(q(Fr(1)))
        for j in range(i):
            n = n*D[j]
        for j in range(i):
            if a[i][j] == 0:
                continue
            m = q(a[i][j])*z*N[j]
            for l in range(j + 1, i):
                m = m*D[l]
            n = n + m
        N.append(n)
    den = Cx(q(Fr(1)))
    for d in D:
        den = den*d
    n = den
    for j in range(s):
        if b[j] == 0:
            continue
        m = q(b[j])*z*N[j]
        for l in range(j + 1, s):
            m = m*D[l]
        n = n + m
    return n, den


def a_stable(name):
    """R has no pole in the left half plane and is bounded by one on the imaginary axis, hence (maximum principle) everywhere"""
    def run(h):
        o, a, b, c = live(abstract(name))
        y = h.real('y')
        n, d = growth(h, a, b, Cx(num(h, Fr(0)), y))
        h.prove_le(n.abs2(), d.abs2()*(1 + num(h, TOL)), 'no mode on the imaginary axis grows')
        x, y2 = h.real('x', hi=0), h.real('y2')
        for i in range(len(b)):
            q = 1 - num(h, a[i][i])*Cx(x, y2)
            h.prove_ge(q.abs2(), 1, f'stage {i} is solvable for every decaying mode')
    return run


def l_stable(name):
    def run(h):
        o, a, b, c = live(abstract(name))
        x = h.real('x', hi=-10**4)
        n, d = growth(h, a, b, Cx(x, num(h, Fr(0))))
        h.prove_le(n.r*n.r*10**2, d.r*d.r, 'stiff modes are damped out')
    return run


def cfl_stable(name):
    """no linear mode inside cfl_coeff times the forward Euler stability disk grows (boundary circle, maximum principle)"""
    def run(h):
        o, a, b, c = live(abstract(name))
        r = frac(float(o.cfl_coeff))
        # rational parametrisation of the circle: e^{i theta} = ((1 - t^2) + 2it)/(1 + t^2), t real (and the point -1)
        t = h.real('t')
        w = 1 + t*t
        p = [0*w]
        co = [Fr(0)]*(len(b) + 1)
        # R(z) = sum_k co_k z^k for an explicit scheme
        zk = [Fr(1)]
        pol = lambda P, Q: [sum((P[i]*Q[k - i] for i in range(len(P)) if 0 <= k - i < len(Q)), Fr(0))
                            for k in range(len(P) + len(Q) - 1)]
        G = []
        for i in range(len(b)):
            g = [Fr(1)]
            for j in range(i):
                m = [Fr(0)] + [a[i][j]*v for v in G[j]]
                g = [(g[k] if k < len(g) else 0) + (m[k] if k < len(m) else 0) for k in range(max(len(g), len(m)))]
            G.append(g)
        R = [Fr(1)]
        for j in range(len(b)):
            m = [Fr(0)] + [b[j]*v for v in G[j]]
            R = [(R[k] if k < len(R) else 0) + (m[k] if k < len(m) else 0) for k in range(max(len(R), len(m)))]
        while len(R) > 1 and R[-1] == 0:
            R.pop()
        deg = len(R) - 1
        # z = r(e^{i theta} - 1) = r(-2 t^2 + 2 i t)/(1 + t^2)
        zn = Cx(num(h, -2*r)*t*t, num(h, 2*r)*t)
        tot = Cx(0*t)
        zp = Cx(1 + 0*t)
        for k in range(deg + 1):
            m = num(h, R[k])*zp
            for _ in range(deg - k):
                m = m*w
            tot = tot + m
            zp = zp*zn
        wd = 1 + 0*t
        for _ in range(2*deg):
            wd = wd*w
        h.prove_le(tot.abs2(), wd*(1 + num(h, TOL)), 'no mode within the CFL limit grows')
    return run


for n, (p, A, L) in SCHEMES.items():
    if A:
        ck.harness(f'A-stable[{n}]', a_stable(n))
    if L:
        ck.harness(f'L-stable[{n}]', l_stable(n))
    if n in EXPLICIT:
        ck.harness(f'cfl[{n}]', cfl_stable(n))


def cfl_values(h):
    """implicit schemes that are offered as unconditionally stable are A-stable (above); the others carry a finite limit"""
    x = h.real('x', gt=0)
    for n, (p, A, L) in SCHEMES.items():
        v = float(abstract(n).cfl_coeff)
        h.prove(v > 0, f'{n}: positive')
        if v == float(CFL_UNCONDITIONALLY_STABLE):
            h.prove(A, f'{n}: unconditionally stable only when A-stable')
    for n in IMEX:
        pass


ck.harness('cfl-values', cfl_values)
ck.finish()
