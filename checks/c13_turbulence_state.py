"""C13: state of the generic length scale turbulence closure"""
from stand import *
import math
import itertools
import types
import numpy as np
import firedrake as fd
import thetis
import thetis.turbulence as tb
import thetis.options as topt
from symx.point import Point
from symx.ufleval import *
from symx.consist import strong_and_flux

ck = Check('C13', 'turbulence state')
TECHNIQUE = 'symbolic execution of the real GenericLengthScaleModel updates; positive quantities are carried by their logarithm, so' \
            ' powers and limiters are linear and z3 decides every path; frequencies and mixing on symbolic reals'
ck.encoded('turbulence.GenericLengthScaleModel.*', 'turbulence.set_func_min_val', 'turbulence.ShearFrequencySolver.solve',
           'turbulence.BuoyFrequencySolver.*', 'turbulence.VerticalGradSolver.__init__ (weak form)')
ck.bound('one or two nodes; exponents of k-epsilon, k-omega, generic and k-kl closures; magnitudes e^-60..e^12; every combination of'
         ' limiter switches')
ck.assumed('stability functions, linear solves and nodal interpolation are stand-ins (C14 and Firedrake); nodes are independent')

LOG = {}


def ln(x):
    """logarithm of a float as a fraction (40 digits)"""
    from decimal import Decimal, getcontext
    getcontext().prec = 40
    x = Decimal(repr(float(x)))
    if x not in LOG:
        LOG[x] = Fr(str(x.ln()))
    return LOG[x]


class Pos:
    """a positive number known by its logarithm"""
    __array_priority__ = 0

    def __init__(self, l):
        self.l = l

    @staticmethod
    def of(x):
        if isinstance(x, (Pos, Zero, Neg)):
            return x
        x = float(x)
        return Pos(ln(x)) if x > 0 else Zero() if x == 0 else Neg()

    def __mul__(self, o):
        if isinstance(o, (np.ndarray, Field)):
            return NotImplemented
        o = Pos.of(o)
        return Pos(self.l + o.l) if isinstance(o, Pos) else o
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, (np.ndarray, Field)):
            return NotImplemented
        o = Pos.of(o)
        if not isinstance(o, Pos):
            raise ZeroDivisionError('division by a non-positive number')
        return Pos(self.l - o.l)

    def __rtruediv__(self, o):
        if isinstance(o, (np.ndarray, Field)):
            return NotImplemented
        o = Pos.of(o)
        return o/self

    def __pow__(self, e):
        return Pos(self.l*(frac(float(e)) if isinstance(e, float) else e))

    def sqrt(self):
        return Pos(self.l/2)

    def __add__(self, o):
        if isinstance(o, (np.ndarray, Field)):
            return NotImplemented
        o = Pos.of(o)
        if isinstance(o, Zero):
            return self
        if not isinstance(o, Pos):
            raise ValueError('sum with a negative number')
        key = (str(self.l), str(o.l))
        if key not in SUMS:
            s = SUMS[key] = H[0].real(f'sum{len(SUMS)}', lo=-200, hi=200)
            a, b = self.l, o.l
            H[0].assume(s >= a)
            H[0].assume(s >= b)
            H[0].assume((s <= a + ln(2)) if bool(a >= b) else (s <= b + ln(2)))
        return Pos(SUMS[key])
    __radd__ = __add__

    def _cmp(self, o):
        return Pos.of(o)

    def __lt__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        o = Pos.of(o)
        return self.l < o.l if isinstance(o, Pos) else False

    def __le__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        o = Pos.of(o)
        return self.l <= o.l if isinstance(o, Pos) else False

    def __gt__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        o = Pos.of(o)
        return self.l > o.l if isinstance(o, Pos) else True

    def __ge__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        o = Pos.of(o)
        return self.l >= o.l if isinstance(o, Pos) else True

    def __eq__(self, o):
        o = Pos.of(o)
        return self.l == o.l if isinstance(o, Pos) else False
    __hash__ = object.__hash__

    def __abs__(self):
        return self

    def __format__(self, f):
        return 'positive'


class Zero:
    rank = 0

    def __mul__(self, o):
        if isinstance(o, (np.ndarray, Field)):
            return NotImplemented
        return self if isinstance(self, Zero) else Pos.of(o) if isinstance(Pos.of(o), Zero) else self
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, (np.ndarray, Field)):
            return NotImplemented
        return self

    def __add__(self, o):
        if isinstance(o, (np.ndarray, Field)):
            return NotImplemented
        if isinstance(self, Zero):
            return Pos.of(o)
        if isinstance(Pos.of(o), Pos):
            raise ValueError('sum with a negative number')
        return self
    __radd__ = __add__

    def sqrt(self):
        return self

    def __abs__(self):
        return self

    def __pow__(self, e):
        raise ValueError('power of a non-positive number')

    def _r(self, o):
        o = Pos.of(o)
        return 1 if isinstance(o, Pos) else o.rank

    def __lt__(self, o):
        return NotImplemented if isinstance(o, np.ndarray) and o.ndim else self.rank < self._r(o)

    def __le__(self, o):
        return NotImplemented if isinstance(o, np.ndarray) and o.ndim else self.rank <= self._r(o)

    def __gt__(self, o):
        return NotImplemented if isinstance(o, np.ndarray) and o.ndim else self.rank > self._r(o)

    def __ge__(self, o):
        return NotImplemented if isinstance(o, np.ndarray) and o.ndim else self.rank >= self._r(o)

    def __eq__(self, o):
        return self.rank == self._r(o)
    __hash__ = object.__hash__

    def __format__(self, f):
        return 'zero'


class Neg(Zero):
    rank = -1

    def sqrt(self):
        raise ValueError('root of a negative number')


SUMS, H = {}, [None]


class Dat:
    def __init__(self, f):
        self.f = f

    @property
    def data(self):
        return self.f.a
    data_ro = data_wo = data_with_halos = data

    @data.setter
    def data(self, v):
        self.f.a[:] = v


class Field:
    """nodal values"""
    log = []

    def __init__(self, a, name='f', **kw):
        self.a = a if isinstance(a, np.ndarray) else np.array([0.0, 0.0], dtype=object)
        self.dat = Dat(self)
        self.nm = name

    def function_space(self):
        return self

    def name(self):
        return self.nm

    def _v(self, o):
        return o.a if isinstance(o, Field) else o

    def assign(self, o):
        self.a[:] = self._v(o)
        return self

    def interpolate(self, o):
        return self.assign(o)

    def __mul__(self, o):
        return Field(np.array([x*y for x, y in zip(*np.broadcast_arrays(self.a, np.asarray(self._v(o), dtype=object)))], dtype=object))
    __rmul__ = __mul__

    def __add__(self, o):
        return Field(np.array([x + y for x, y in zip(*np.broadcast_arrays(self.a, np.asarray(self._v(o), dtype=object)))], dtype=object))
    __radd__ = __add__

    def __neg__(self):
        return -1.0*self

    def __sub__(self, o):
        return self + (-1.0)*o

    def __truediv__(self, o):
        return Field(np.array([x/y for x, y in zip(*np.broadcast_arrays(self.a, np.asarray(self._v(o), dtype=object)))], dtype=object))

    def __rtruediv__(self, o):
        return Field(np.array([o/x for x in self.a], dtype=object))

    def __pow__(self, e):
        return Field(np.array([x**e for x in self.a], dtype=object))

    def sqrt(self):
        return Field(np.array([x**Fr(1, 2) for x in self.a], dtype=object))

    def __getitem__(self, i):
        return (self, i)


_MESH = []


def p0(n):
    while len(_MESH) <= n:
        _MESH.append(fd.FunctionSpace(fd.UnitIntervalMesh(len(_MESH) or 1), 'DG', 0))
    return _MESH[n]


def field(h, vals, name):
    if h.symbolic:
        return Field(np.array(vals, dtype=object), name)
    f = fd.Function(p0(len(vals)), name=name)
    f.dat.data[:] = [float(v) for v in vals]
    return f


def nodal(f):
    return list(f.dat.data)


def pos(h, name, lo=-60, hi=12):
    v = h.real(f'log {name}', lo=lo, hi=hi)
    return Pos(v) if h.symbolic else math.exp(float(v))


def anyval(h, name, zero=False, lo=-60, hi=12, kinds=('positive', 'zero', 'negative')):
    s = h.choice(f'sign of {name}', list(kinds))
    if s == 'positive':
        return pos(h, name, lo, hi)
    v = 0.0 if s == 'zero' else -0.37
    return Pos.of(v) if h.symbolic else v


def L(x):
    if isinstance(x, Pos):
        return x.l
    return math.log(x)


def eq(h, a, b, name, tol=1e-9):
    a, b = Pos.of(a) if h.symbolic else a, Pos.of(b) if h.symbolic else b
    if h.symbolic and not (isinstance(a, Pos) and isinstance(b, Pos)):
        h.prove(type(a) is type(b), name)
        return
    if not h.symbolic and not (a > 0 and b > 0):
        h.prove(abs(a - b) < 1e-12, name)
        return
    h.prove_eq(L(a), L(b), name, tol=tol)


def ge(h, a, b, name):
    if h.symbolic:
        a, b = Pos.of(a), Pos.of(b)
        h.prove(isinstance(a, Pos), name + ': positive')
        if isinstance(b, Pos) and isinstance(a, Pos):
            h.prove_ge(a.l, b.l, name, tol=1e-9)
    else:
        h.prove(a > 0, name + ': positive')
        h.prove(a >= b*(1 - 1e-9), name)


def mx(a, b):
    return a if bool(a >= b) else b


def mn(a, b):
    return a if bool(a <= b) else b


class Stab:
    def __init__(self, h, n, kinds=('positive',)):
        self.h, self.n, self.calls, self.kinds = h, n, [], kinds

    def evaluate(self, m2, n2, k, eps):
        self.calls.append([list(x) for x in (m2, n2, k, eps)])
        i = len(self.calls)
        self.sm = [anyval(self.h, f's_m{i}{j}', lo=-10, hi=2, kinds=self.kinds) for j in range(self.n)]
        self.sh = [anyval(self.h, f's_h{i}{j}', lo=-10, hi=2, kinds=self.kinds) for j in range(self.n)]
        dt = object if self.h.symbolic else float
        return np.array(self.sm, dtype=dt), np.array(self.sh, dtype=dt)


EXPO = {'ke': (3.0, 1.5, -1.0), 'kw': (-1.0, 0.5, -1.0), 'gen': (2.0, 1.0, -0.67), 'kkl': (0.0, 1.0, 1.0)}


def gls(h, expo, limits, n=1, kinds=('positive', 'zero', 'negative'), stab=('positive',), minima=False):
    """the model object without its constructor"""
    H[0] = h
    SUMS.clear()
    g = object.__new__(tb.GenericLengthScaleModel)
    o = g.options = types.SimpleNamespace()
    o.p, o.m, o.n = EXPO[expo]
    o.cmu0 = pos(h, 'cmu0', -2, 0)
    o.k_min, o.eps_min, o.psi_min, o.len_min = (pos(h, x, -40, -5) for x in ('k_min', 'eps_min', 'psi_min', 'len_min'))
    o.galperin_clim = pos(h, 'clim', -3, 1)
    zero = Zero() if h.symbolic else 0.0
    o.visc_min, o.diff_min = (pos(h, 'visc_min', -40, -5), pos(h, 'diff_min', -40, -5)) if minima else (zero, zero)
    o.limit_psi, o.limit_eps, o.limit_len, o.limit_len_min = (x in limits for x in ('psi', 'eps', 'len', 'len_min'))
    g.relaxation = 1.0
    g.k = field(h, [anyval(h, f'k{i}', kinds=kinds) for i in range(n)], 'k')
    g.psi = field(h, [anyval(h, f'psi{i}', kinds=kinds) for i in range(n)], 'psi')
    one = Pos.of(1.0) if h.symbolic else 1.0
    g.epsilon, g.l = field(h, [one]*n, 'eps'), field(h, [one]*n, 'l')
    g.viscosity, g.diffusivity = field(h, [one]*n, 'nu'), field(h, [one]*n, 'mu')
    g.n2 = field(h, [pos(h, f'N2{i}') for i in range(n)], 'n2')
    g.m2 = field(h, [pos(h, f'M2{i}') for i in range(n)], 'm2')
    g.n2_pos = field(h, [anyval(h, f'N2pos{i}', kinds=('positive', 'zero') if n == 1 else ('positive',), lo=-40) for i in range(n)], 'n2p')
    g.stability_func = Stab(h, n, stab)
    return g


def update(expo, limits, n=1, kinds=('positive', 'zero', 'negative'), stab=('positive',), minima=False):
    def run(h):
        g = gls(h, expo, limits, n, kinds, stab, minima)
        o = g.options
        p, m, q = (frac(float(x)) if h.symbolic else x for x in EXPO[expo])
        if n > 1 and h.symbolic:
            h.assume(g.k.a[1].l >= o.k_min.l + 1)
            h.assume(g.psi.a[1].l >= o.psi_min.l + 1)
            h.assume(g.psi.a[1].l <= 0)
            h.assume(g.k.a[1].l >= 0)
        k0, psi0, np0, n20, m20 = (nodal(f) for f in (g.k, g.psi, g.n2_pos, g.n2, g.m2))
        with patched((tb, 'warning', lambda *a: None)):
            tb.GenericLengthScaleModel.postprocess(g)
        K, PSI, EPS, LEN, NU, MU = (nodal(f) for f in (g.k, g.psi, g.epsilon, g.l, g.viscosity, g.diffusivity))
        h.prove(len(g.stability_func.calls) == 1, 'stability functions evaluated once')
        c = g.stability_func.calls[0]
        for i in range(n):
            k, psi, eps, l = K[i], PSI[i], EPS[i], LEN[i]
            for a, b, nm in ((c[0][i], m20[i], 'shear'), (c[1][i], n20[i], 'buoyancy'), (c[2][i], k, 'energy'), (c[3][i], eps, 'dissipation')):
                eq(h, a, b, f'stability functions see the updated {nm}')
            for a, b, nm in ((nodal(g.n2)[i], n20[i], 'N2'), (nodal(g.m2)[i], m20[i], 'M2')):
                eq(h, a, b, f'{nm} is not changed')
            eq(h, k, mx(k0[i], o.k_min), 'energy is clipped at its minimum')
            r = psi0[i]
            N2 = np0[i] + 1e-12
            root2 = Pos.of(math.sqrt(2)) if h.symbolic else math.sqrt(2)
            # length scale at the Galperin limit
            if 'psi' in limits or 'len' in limits:
                lim = root2*o.galperin_clim*k**0.5/N2**0.5
                bound = o.cmu0**float(p)*k**float(m)*lim**float(q)
            if 'psi' in limits:
                r = mn(r, bound) if q > 0 else mx(r, bound)
            r = mx(r, o.psi_min)
            eq(h, psi, r, 'psi is limited')
            e = o.cmu0**(3 + p/q)*k**(Fr(3, 2) + m/q if h.symbolic else 1.5 + m/q)*psi**(-1/q)
            e_free = e
            if 'eps' in limits:
                s = Pos.of(0.0) if h.symbolic else 0.0
                positive = isinstance(np0[i], Pos) if h.symbolic else np0[i] > 0
                if positive:
                    s = o.cmu0**3/(root2*o.galperin_clim)*np0[i]**0.5*k
                e = mx(e, s)
            e = mx(e, o.eps_min)
            eq(h, eps, e, 'dissipation follows from psi')
            s = o.cmu0**3*k**1.5/eps
            l_free = s
            if 'len_min' in limits:
                s = mx(s, o.len_min)
            if 'len' in limits:
                s = mn(s, lim)
            eq(h, l, s, 'length scale follows from energy and dissipation')
            ge(h, k, o.k_min, 'energy at or above its minimum')
            ge(h, psi, o.psi_min, 'psi at or above its minimum')
            ge(h, eps, o.eps_min, 'dissipation at or above its minimum')
            if 'len_min' in limits and 'len' not in limits:
                ge(h, l, o.len_min, 'length scale at or above its minimum')
            if 'len' in limits:
                ge(h, lim, l, 'Galperin limit on the length scale')
            if 'psi' in limits and q < 0:
                ge(h, lim, l_free, 'Galperin limit through psi')
            # psi = cmu0^p k^m l^n wherever no limit acts on dissipation and length
            if bool(e_free >= e) and bool(e_free <= e) and not isinstance(e_free, (Zero,)):
                eq(h, psi, o.cmu0**float(p)*k**float(m)*l_free**float(q), 'psi, energy and length scale are consistent', tol=1e-8)
            sm, sh = g.stability_func.sm[i], g.stability_func.sh[i]
            for new, st, lo, nm in ((NU[i], sm, o.visc_min, 'viscosity'), (MU[i], sh, o.diff_min, 'diffusivity')):
                free = k**0.5*l*st/o.cmu0**3
                eq(h, new, mx(free, lo) if minima else free, f'{nm} is c k^(1/2) l')
                if minima:
                    ge(h, new, lo, f'{nm} at or above its minimum')
    return run


def relaxed(h):
    """old and new values are mixed"""
    g = object.__new__(tb.GenericLengthScaleModel)
    o = g.options = types.SimpleNamespace(p=3.0, m=1.5, n=-1.0, cmu0=1.0, k_min=1e-6, eps_min=1e-14, psi_min=1e-14, len_min=1e-12,
                                          galperin_clim=1.0, limit_psi=False, limit_eps=False, limit_len=False, limit_len_min=False,
                                          visc_min=1e-8, diff_min=1e-7)
    lam = g.relaxation = h.real('relaxation', lo=0, hi=1)
    one = h.real('one', lo=1, hi=1)
    g.k, g.psi, g.epsilon, g.l = (field(h, [one], n) for n in ('k', 'psi', 'eps', 'l'))
    a, b = h.real('nu', lo=0, hi=1), h.real('mu', lo=0, hi=1)
    g.viscosity, g.diffusivity = field(h, [a], 'nu'), field(h, [b], 'mu')
    g.n2, g.m2, g.n2_pos = (field(h, [one], n) for n in ('n2', 'm2', 'n2p'))
    sm, sh = h.real('sm', lo=-1, hi=1), h.real('sh', lo=-1, hi=1)
    dt = object if h.symbolic else float
    g.stability_func = types.SimpleNamespace(evaluate=lambda *x: (np.array([sm], dtype=dt), np.array([sh], dtype=dt)))
    tb.GenericLengthScaleModel.postprocess(g)
    for x, old, new, lo, nm in ((nodal(g.viscosity)[0], a, sm, 1e-8, 'viscosity'), (nodal(g.diffusivity)[0], b, sh, 1e-7, 'diffusivity')):
        v = lam*new + (1 - lam)*old
        h.prove_eq(x, v if bool(v >= lo) else lo, nm, tol=1e-9)


# ---- initial state and preprocessing --------------------------------------------------------------------------------------------
class Rec:
    def __init__(self, log, name):
        self.log, self.name = log, name

    def solve(self, init_solve=False):
        self.log.append((self.name, init_solve))


def initial(expo):
    def run(h):
        H[0] = h
        SUMS.clear()
        cont = h.choice('continued', [False, True])
        g = gls(h, expo, ('psi', 'len_min'), 1, ('positive',))
        g._initialized = False
        g.solver = types.SimpleNamespace(_simulation_continued=cont)
        log = []
        g.rho = None
        g.shear_frequency_solver = Rec(log, 'shear')
        g.postprocess = lambda: log.append(('post', nodal(g.k)[0], nodal(g.psi)[0], nodal(g.epsilon)[0]))
        g.n2_neg = field(h, [1.0], 'n2n')
        k0, psi0, e0 = nodal(g.k)[0], nodal(g.psi)[0], nodal(g.epsilon)[0]
        g.n2, g.n2_pos = field(h, [3.0], 'n2'), field(h, [3.0], 'n2p')
        li = pos(h, 'l_init', -10, 0)
        tb.GenericLengthScaleModel.initialize(g, l_init=li)
        h.prove(log[0] == ('shear', True) and log[1][0] == 'post' and len(log) == 2, 'frequencies without relaxation, then the update')
        _, k, psi, e = log[1]
        p, m, q = EXPO[expo]
        o = g.options
        if cont:
            for a, b, nm in ((k, k0, 'energy'), (psi, psi0, 'psi'), (e, e0, 'dissipation')):
                eq(h, a, b, f'{nm} of a continued run is kept')
        else:
            eq(h, k, o.k_min, 'energy')
            eq(h, e, o.cmu0**3*o.k_min**1.5/li, 'dissipation of the initial length scale')
            eq(h, psi, o.cmu0**p*o.k_min**m*li**q, 'psi of the initial length scale', tol=1e-8)
        h.prove(abs(float(nodal(g.n2)[0]) - 1e-12) < 1e-20 and abs(float(nodal(g.n2_pos)[0]) - 1e-12) < 1e-20
                and float(nodal(g.n2_neg)[0]) == 0, 'weak stratification')
        tb.GenericLengthScaleModel.preprocess(g)
        h.prove(log[2:] == [('shear', False)], 'initialised only once')
    return run


def split(h):
    """positive and negative part of the buoyancy frequency"""
    n = 2
    g = object.__new__(tb.GenericLengthScaleModel)
    g._initialized = True
    log = []
    g.shear_frequency_solver, g.buoy_frequency_solver = Rec(log, 'shear'), Rec(log, 'buoy')
    v = [h.real(f'n2{i}', lo=-1, hi=1) for i in range(n)]
    g.rho = object()
    g.n2 = field(h, v, 'n2')
    g.n2_pos, g.n2_neg = (field(h, [h.real(f'{a}{i}', lo=-5, hi=5) for i in range(n)], a) for a in ('p', 'n'))
    init = h.choice('init', [False, True])
    tb.GenericLengthScaleModel.preprocess(g, init_solve=init)
    h.prove(log == [('shear', init), ('buoy', init)], 'both frequencies are updated first')
    for i in range(n):
        a, b = nodal(g.n2_pos)[i], nodal(g.n2_neg)[i]
        h.prove_eq(a + b, v[i] if bool(v[i] >= 0) else v[i] + Fr(1, 10**12), 'parts add up', tol=1e-11)
        h.prove_ge(a, 0, 'positive part')
        h.prove_le(b, 0, 'negative part', tol=1e-11)
        h.prove(a*b >= -Fr(1, 10**11), 'only one part at a time')
        h.prove_eq(nodal(g.n2)[i], v[i], 'frequency is not changed')


def no_density(h):
    g = object.__new__(tb.GenericLengthScaleModel)
    log = []
    g.shear_frequency_solver = Rec(log, 'shear')
    g.rho = None
    v = [h.real(f'n2{i}', lo=0, hi=1) for i in range(2)]
    g._initialized = True
    g.n2_pos = field(h, v, 'p')
    tb.GenericLengthScaleModel.preprocess(g)
    h.prove(log == [('shear', False)], 'shear only')
    h.prove_eq(nodal(g.n2_pos), v, 'stratification is kept')


# ---- constructor ------------------------------------------------------------------------------------------------------------------
FLAGS = ('compute_cmu0', 'compute_kappa', 'compute_schmidt_nb_psi', 'compute_c3_minus', 'compute_psi_min', 'compute_len_min',
         'compute_galperin_clim')
NAMES = {'Canuto A': 'StabilityFunctionCanutoA', 'Canuto B': 'StabilityFunctionCanutoB', 'Cheng': 'StabilityFunctionCheng',
         'Kantha-Clayson': 'GOTMStabilityFunctionKanthaClayson'}


def constructor(expo, name):
    def run(h):
        H[0] = h
        SUMS.clear()
        o = types.SimpleNamespace(stability_function_name=name)
        o.p, o.m, o.n = EXPO[expo]
        for f in FLAGS:
            setattr(o, f, h.choice(f, [True, False]))
        init = {}
        for x in ('cmu0', 'kappa', 'schmidt_nb_psi', 'c1', 'c2', 'c3_minus', 'psi_min', 'len_min', 'k_min', 'eps_min', 'ri_st', 'galperin_clim'):
            init[x] = pos(h, x, -30, 3)
            setattr(o, x, init[x])
        out = {x: pos(h, 'derived ' + x, -30, 3) for x in ('cmu0', 'kappa', 'sigma_psi', 'c3_minus', 'length_clim')}
        calls, made = [], []

        class S:
            def __init__(self, **kw):
                made.append(kw)

            def __getattr__(self, nm):
                def f(*a):
                    calls.append((nm, a))
                    return out[nm[8:]]
                return f

        class VK:
            v = None

            def assign(self, x):
                VK.v = x
        f = Field(np.array([0.0]))
        rho = h.choice('rho', [True, False])
        sol = []
        boom = type('No', (), {'__init__': lambda s, **k: (_ for _ in ()).throw(ValueError('another closure'))})
        classes = [(tb, c, S if NAMES[name] == c else boom) for c in NAMES.values()]
        with patched((tb, 'Function', Field), (tb, 'print_output', lambda *a: None), (tb, 'physical_constants', {'von_karman': VK()}),
                     (tb, 'ShearFrequencySolver', lambda *a, **k: sol.append(('shear', a))),
                     (tb, 'BuoyFrequencySolver', lambda *a, **k: sol.append(('buoy', a))), *classes):
            fs = [Field(np.array([0.0])) for _ in range(10)]
            g = tb.GenericLengthScaleModel('solver', fs[0], fs[1], fs[2], fs[3] if rho else None, fs[4], fs[5], fs[6], fs[7], fs[8], fs[9],
                                           options=o)
        cm = out['cmu0'] if o.compute_cmu0 else init['cmu0']
        same(h, o.cmu0, cm, 'cmu0')
        want = []
        if o.compute_cmu0:
            want.append(('compute_cmu0', ()))
        if o.compute_kappa:
            want.append(('compute_kappa', (init['schmidt_nb_psi'], cm, o.n, init['c1'], init['c2'])))
            same(h, o.kappa, out['kappa'], 'von Karman constant')
            h.prove(VK.v is out['kappa'], 'the mean flow uses the same von Karman constant')
            same(h, o.schmidt_nb_psi, init['schmidt_nb_psi'], 'Schmidt number is kept')
        else:
            h.prove(VK.v is None, 'mean flow constant is kept')
            same(h, o.kappa, init['kappa'], 'von Karman constant is kept')
            if o.compute_schmidt_nb_psi:
                want.append(('compute_sigma_psi', (init['kappa'], cm, o.n, init['c1'], init['c2'])))
            same(h, o.schmidt_nb_psi, out['sigma_psi'] if o.compute_schmidt_nb_psi else init['schmidt_nb_psi'], 'Schmidt number')
        if o.compute_c3_minus:
            want.append(('compute_c3_minus', (init['c1'], init['c2'], init['ri_st'])))
        same(h, o.c3_minus, out['c3_minus'] if o.compute_c3_minus else init['c3_minus'], 'c3_minus')
        if o.compute_galperin_clim:
            want.append(('compute_length_clim', (cm, init['ri_st'])))
        same(h, o.galperin_clim, out['length_clim'] if o.compute_galperin_clim else init['galperin_clim'], 'Galperin constant')
        h.prove(sorted(a for a, _ in calls) == sorted(a for a, _ in want), 'derived constants')
        for a, args in want:
            got = [b for c, b in calls if c == a]
            h.prove(len(got) == 1 and len(got[0]) == len(args) and all(x is y or x == y for x, y in zip(got[0], args)), f'arguments of {a}')
        p, m, q = EXPO[expo]
        lm = cm**3*init['k_min']**1.5/init['eps_min']
        if o.compute_psi_min:
            eq(h, o.psi_min, cm**p*init['k_min']**m*lm**q, 'smallest psi is that of smallest energy and dissipation', tol=1e-7)
        else:
            same(h, o.psi_min, init['psi_min'], 'smallest psi')
        if o.compute_len_min:
            eq(h, o.len_min, lm, 'smallest length scale is that of smallest energy and dissipation')
        else:
            same(h, o.len_min, init['len_min'], 'smallest length scale')
        h.prove(made == [dict(lim_alpha_shear=True, lim_alpha_buoy=True, smooth_alpha_buoy_lim=False)], 'limited stability functions')
        h.prove([s for s, _ in sol] == (['shear', 'buoy'] if rho else ['shear']), 'frequency solvers')
        h.prove(sol[0][1][0] is fs[2] and sol[0][1][1] is fs[9], 'shear of the velocity')
        if rho:
            h.prove(sol[1][1][0] is fs[3] and sol[1][1][1] is fs[8], 'stratification of the density')
        h.prove(g.k is fs[0] and g.psi is fs[1] and g.l is fs[4] and g.epsilon is fs[5] and g.diffusivity is fs[6]
                and g.viscosity is fs[7] and g.n2 is fs[8] and g.m2 is fs[9], 'fields')
    return run


def same(h, a, b, name):
    eq(h, a, b, name)


def real_constructor(h):
    """every closure and stability function family can be constructed"""
    closure = h.choice('closure', ['k-epsilon', 'k-omega', 'Generic Length Scale'])
    stab = h.choice('stability', list(NAMES))
    n = h.real('x', lo=0, hi=1)
    o = topt.GLSModelOptions()
    o.apply_defaults(closure)
    o.stability_function_name = stab
    if stab == 'Kantha-Clayson':
        o.ri_st = 0.2
    f = [Field(np.array([0.0])) for _ in range(10)]
    with patched((tb, 'Function', Field), (tb, 'print_output', lambda *a: None),
                 (tb, 'ShearFrequencySolver', lambda *a, **k: None), (tb, 'BuoyFrequencySolver', lambda *a, **k: None)):
        g = tb.GenericLengthScaleModel('s', *f, options=o)
    h.prove(type(g.stability_func).__name__ == NAMES[stab], 'stability function family')
    h.prove(g.stability_func.lim_alpha_shear and g.stability_func.lim_alpha_buoy, 'limited')
    s = g.stability_func
    am = float(s.compute_alpha_shear_steady(o.ri_st))
    sm, sh = s.eval_funcs(o.ri_st*am, am)
    h.prove(abs(o.c3_minus - (o.c2 - (o.c2 - o.c1)*sm/sh/o.ri_st)) < 2e-2, 'c3_minus gives the steady Richardson number')
    h.prove(abs(o.galperin_clim - o.cmu0**3*math.sqrt(o.ri_st*am/2)) < 1e-9, 'Galperin constant')
    h.prove(abs((o.n*o.kappa)**2 - o.schmidt_nb_psi*o.cmu0**2*(o.c2 - o.c1)) < 1e-9, 'logarithmic layer')
    h.prove(abs(s.eval_funcs(0., float(s.compute_alpha_shear_steady(0.)))[0] - o.cmu0**4) < 1e-9, 'neutral constant')
    h.prove(o.galperin_clim > 0.05 and o.galperin_clim < 1, 'Galperin constant is of order one')


# ---- frequencies -------------------------------------------------------------------------------------------------------------------
def shear(h):
    n = 1
    made = []

    class V:
        def __init__(self, src, sol, **k):
            self.i, self.sol = src, sol
            made.append(self)

        def solve(self):
            self.sol.assign(field(h, G[self.i[1]], 'g'))
    G = [[h.real(f'g{c}{i}', lo=-10, hi=10) for i in range(n)] for c in range(2)]
    old = [[h.real(f'o{c}{i}', lo=-10, hi=10) for i in range(n)] for c in range(2)]
    r = h.real('relaxation', lo=0, hi=1)
    mnv = h.real('minval', lo=0, hi=1)
    init = h.choice('init', [True, False])
    mu, mv = field(h, old[0], 'mu'), field(h, old[1], 'mv')
    m2, tmp = field(h, [h.real(f'm{i}', lo=0, hi=1) for i in range(n)], 'm2'), field(h, [0.0]*n, 'tmp')
    uv = Field(np.array([0.0]))
    with patched((tb, 'VerticalGradSolver', V)):
        s = tb.ShearFrequencySolver(uv, m2, mu, mv, tmp, relaxation=r, minval=mnv)
    g = 1 if init else r
    s.solve(init_solve=init)
    for i in range(n):
        w = [g*G[c][i] + (1 - g)*old[c][i] for c in range(2)]
        t = w[0]*w[0] + w[1]*w[1]
        h.prove_eq(nodal(m2)[i], t if bool(t >= mnv) else mnv, 'shear frequency', tol=1e-9)
        h.prove_ge(nodal(m2)[i], mnv, 'at or above its minimum')
        h.prove_eq(nodal(mu)[i], w[0], 'x component', tol=1e-9)
        h.prove_eq(nodal(mv)[i], w[1], 'y component', tol=1e-9)


def buoy(h):
    n = 2
    src = []

    class V:
        def __init__(self, s, sol, **k):
            src.append(s)
            self.sol = sol

        def solve(self):
            self.sol.assign(field(h, G, 'g'))
    G = [h.real(f'g{i}', lo=-10, hi=10) for i in range(n)]
    old = [h.real(f'o{i}', lo=-10, hi=10) for i in range(n)]
    r = h.real('relaxation', lo=0, hi=1)
    init = h.choice('init', [True, False])
    n2, tmp = field(h, old, 'n2'), field(h, [0.0]*n, 'tmp')
    g, rho0, rv_ = h.real('grav', lo=1, hi=20), h.real('rho0', lo=900, hi=1100), h.real('rho', lo=-50, hi=50)
    with patched((tb, 'VerticalGradSolver', V), (tb, 'physical_constants', {'g_grav': g, 'rho0': rho0})):
        s = tb.BuoyFrequencySolver(rv_, n2, tmp, relaxation=r)
    h.prove_eq(src[0]*rho0, -g*rv_, 'buoyancy', tol=1e-9)
    s.solve(init_solve=init)
    w = 1 if init else r
    for i in range(n):
        h.prove_eq(nodal(n2)[i], w*G[i] + (1 - w)*old[i], 'buoyancy frequency', tol=1e-9)
    tb.BuoyFrequencySolver(None, n2, tmp).solve()


_M3 = []


def mesh3():
    if not _M3:
        _M3.append(fd.ExtrudedMesh(fd.UnitTriangleMesh(), 2))
    return _M3[0]


def grad_form(deg, kind):
    """weak vertical derivative"""
    m = mesh3()
    T = fd.FunctionSpace(m, fd.TensorProductElement(fd.FiniteElement('DG', fd.triangle, deg), fd.FiniteElement('DG', fd.interval, deg)))
    W = fd.FunctionSpace(m, fd.TensorProductElement(fd.FiniteElement('DG', fd.triangle, 1), fd.FiniteElement('DG', fd.interval, 1)))
    prob = []

    def run(h):
        src, sol, w = fd.Function(W, name='src'), fd.Function(T, name='sol'), fd.Function(T, name='w')
        prob.clear()
        old = tb.LinearVariationalProblem, tb.LinearVariationalSolver
        tb.LinearVariationalProblem = lambda a, l, s, **k: prob.append((a, l, s))
        tb.LinearVariationalSolver = lambda p, **k: None
        try:
            tb.VerticalGradSolver(src, sol)
        finally:
            tb.LinearVariationalProblem, tb.LinearVariationalSolver = old
        a, l, s = prob[0]
        h.prove(s is sol, 'solution field')
        P = Point(h, m, kind)
        for f in (src, w):
            P.coeff(f)
        if kind == 'dS_h':
            P.same_on_both_sides(src)
        sub = {l.arguments()[0]: w}
        r = P.integral(fd.replace(l, sub))
        av = P.integral(fd.replace(a, {q: (w if q.number() == 0 else src) for q in a.arguments()})) if kind == 'dx' else 0
        if kind == 'dx':
            h.prove_eq(av, P.value(w)*P.value(src), 'mass matrix', tol=1e-9)
            # by parts: w dp/dz = d(w p)/dz - p dw/dz
            h.prove_eq(r, -P.value(src)*P.grad(w, None, 0, 2), 'cell', tol=1e-9)
        elif kind == 'dS_h':
            nz = P.n[2]
            h.prove_eq(r, P.value(src, '+')*nz*(P.value(w, '+') - P.value(w, '-')), 'facet', tol=1e-6)
        else:
            h.prove_eq(r, P.value(src)*P.n[2]*P.value(w), 'top or bottom', tol=1e-6)
    return run


def grad_conserves(h):
    """what one cell gains at a facet the other loses, also where the source jumps"""
    m = mesh3()
    T = fd.FunctionSpace(m, 'DG', 0)
    W = fd.FunctionSpace(m, fd.TensorProductElement(fd.FiniteElement('DG', fd.triangle, 1), fd.FiniteElement('DG', fd.interval, 1)))
    src, sol, w = fd.Function(W, name='src'), fd.Function(T, name='sol'), fd.Function(T, name='w')
    prob = []
    old = tb.LinearVariationalProblem, tb.LinearVariationalSolver
    tb.LinearVariationalProblem = lambda a, l, s, **k: prob.append((a, l, s))
    tb.LinearVariationalSolver = lambda p, **k: None
    try:
        tb.VerticalGradSolver(src, sol)
    finally:
        tb.LinearVariationalProblem, tb.LinearVariationalSolver = old
    P = Point(h, m, 'dS_h')
    for f in (src, w):
        P.coeff(f)
    l = prob[0][1]
    r = P.integral(fd.replace(l, {l.arguments()[0]: w}))
    h.prove_eq(r, (P.value(src, '+') + P.value(src, '-'))/2*P.n[2]*(P.value(w, '+') - P.value(w, '-')), 'mean value at the facet', tol=1e-6)


LIM = ('psi', 'eps', 'len', 'len_min')
for e in EXPO:
    sets = [(), ('psi', 'len_min'), ('eps', 'len')] + ([LIM] if e in ('ke', 'kkl') else [])
    if ck.thorough:
        sets = [s for r in range(5) for s in itertools.combinations(LIM, r)]
    for s in sets:
        # unphysical values: where they are told apart from small ones does not depend on the limiters
        kinds = ('positive', 'zero', 'negative') if ck.thorough or (s == () and e == 'ke') else \
            ('positive', 'negative') if s == ('psi', 'len_min') and e == 'kkl' else ('positive',)
        ck.harness(f'update[{e},{"+".join(s) or "none"}]', update(e, s, kinds=kinds), expect_paths=8)
    if e in ('ke', 'gen') or ck.thorough:
        ck.harness(f'update[{e},minima]', update(e, (), stab=('positive', 'negative'), minima=True, kinds=('positive',)), expect_paths=4)
    ck.harness(f'initial[{e}]', initial(e), expect_paths=2)
    ck.harness(f'constructor[{e}]', constructor(e, {'ke': 'Canuto A', 'kw': 'Cheng', 'gen': 'Kantha-Clayson', 'kkl': 'Canuto B'}[e]), expect_paths=64)
ck.harness('update[two nodes]', update('ke', (), 2, ('positive',)), expect_paths=16)
ck.harness('relaxed', relaxed, expect_paths=4)
ck.harness('split', split, expect_paths=4)
ck.harness('no-density', no_density)
ck.harness('real-constructor', real_constructor, expect_paths=12)
ck.harness('shear', shear, expect_paths=3)
ck.harness('buoy', buoy, expect_paths=2)
for k in ('dx', 'dS_h', 'ds_t', 'ds_b'):
    for d in (0, 1):
        ck.harness(f'gradient[{k},{d}]', grad_form(d, k))
ck.harness('gradient[jump]', grad_conserves)
ck.finish()
