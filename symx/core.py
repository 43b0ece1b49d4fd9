"""Symbolic values, path exploration and obligation discharge (z3).

The harness of a check is an ordinary Python function ``harness(h)`` that obtains its inputs from ``h``
(``h.real``, ``h.int``, ``h.bool``, ``h.choice``), calls the *real* functions of /repo on them, and states the property
with ``h.prove``/``h.prove_eq``.  It is run in one of two modes:

* ``sym``   the inputs are z3 terms wrapped in proxies; a branch on a symbolic condition forks the path (by
            re-execution); every ``prove`` becomes one solver query  path /\\ assumptions /\\ not(claim).
* ``conc``  the inputs are the concrete numbers of a solver model; the very same harness runs the real, unpatched
            code on floats and each ``prove`` is evaluated numerically.  This is the replay of a counterexample.
"""
import sys
import os
import json
import math
import time
import traceback
import random
from fractions import Fraction

_Z3PATH = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _Z3PATH not in sys.path:
    sys.path.append(_Z3PATH)
import z3  # noqa: E402
import numpy as np  # noqa: E402

z3.set_param('smt.random_seed', 1)
z3.set_param('nlsat.seed', 1)


# --------------------------------------------------------------------------------------------------------------
# numbers

def frac(x):
    """Exact rational for a literal: the short rational that rounds to the same double when there is one."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    x = float(x)
    if math.isnan(x) or math.isinf(x):
        raise ValueError('non-finite literal')
    f = Fraction(repr(x))       # shortest decimal that rounds to x
    if f.denominator > 10**12 or f.denominator > 10**6 and abs(f) < 1e3:
        g = f.limit_denominator(20000)
        if float(g) == x or (abs(float(g) - x) <= 4e-16*abs(x)):
            return g
    return f


def z3num(x):
    if isinstance(x, (int, np.integer)) and not isinstance(x, bool):
        return z3.RealVal(int(x))
    f = frac(x)
    return z3.RealVal(str(f.numerator))/z3.RealVal(str(f.denominator)) if f.denominator != 1 \
        else z3.RealVal(str(f.numerator))


def rv(x):
    f = frac(x)
    return z3.Q(f.numerator, f.denominator)


class Unsupported(Exception):
    """the symbolic engine cannot model an operation"""


class PathInfeasible(BaseException):
    """steers the exploration: the current path has no model"""


class Abandon(BaseException):
    """steers the exploration: stop this path (budget)"""


_CTX = None


def ctx():
    return _CTX


def is_sym(x):
    return isinstance(x, (SymReal, SymBool))


def raw(x):
    """z3 term of a proxy / number"""
    if isinstance(x, SymReal):
        return x.e
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, z3.ExprRef):
        return x
    if isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, np.ndarray) and x.shape == ():
        return raw(x[()])
    return rv(x)


def lift(x):
    if isinstance(x, z3.ExprRef):
        if z3.is_bool(x):
            return SymBool(x)
        return SymReal(x)
    return x


def _num(x):
    return isinstance(x, (int, float, Fraction, np.integer, np.floating)) and not isinstance(x, (bool,))


def _inf(o):
    return isinstance(o, (float, np.floating)) and math.isinf(o)


class SymBool:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ctx().branch(self.e)

    def __and__(self, o):
        return SymBool(z3.And(self.e, raw_bool(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.e, raw_bool(o)))
    __ror__ = __or__

    def __invert__(self):
        return SymBool(z3.Not(self.e))

    def __xor__(self, o):
        return SymBool(z3.Xor(self.e, raw_bool(o)))

    def logical_not(self):
        return ~self

    def __eq__(self, o):
        return SymBool(self.e == raw_bool(o))

    def __ne__(self, o):
        return SymBool(self.e != raw_bool(o))

    def __hash__(self):
        return self.e.hash()

    # arithmetic on booleans
    def _r(self):
        return SymReal(z3.If(self.e, z3.RealVal(1), z3.RealVal(0)))

    def __add__(self, o):
        return self._r() + o
    __radd__ = __add__

    def __mul__(self, o):
        return self._r() * o
    __rmul__ = __mul__

    def __sub__(self, o):
        return self._r() - o

    def __rsub__(self, o):
        return o - self._r()


def raw_bool(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, z3.ExprRef):
        return x
    if isinstance(x, SymReal):
        return x.e != 0
    return z3.BoolVal(bool(x))


class SymReal:
    """symbolic real (or integer) number.  ``isint`` marks z3 Int sort."""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    @property
    def isint(self):
        return z3.is_int(self.e)

    # -- arithmetic
    def _co(self, o):
        if isinstance(o, SymReal):
            return o.e
        if isinstance(o, SymBool):
            return o._r().e
        if isinstance(o, np.ndarray):
            if o.shape == ():
                return self._co(o[()])
            return None
        if isinstance(o, (bool, np.bool_)):
            return z3.RealVal(int(o))
        if isinstance(o, (int, np.integer)) and self.isint:
            return z3.IntVal(int(o))
        if _num(o):
            return rv(o)
        return None

    def _bin(self, o, f):
        if _inf(o):
            return NotImplemented
        c = self._co(o)
        if c is None:
            return NotImplemented
        a = self.e
        if z3.is_int(a) != z3.is_int(c):
            if z3.is_int(a):
                a = z3.ToReal(a)
            else:
                c = z3.ToReal(c)
        return SymReal(f(a, c))

    def __add__(self, o):
        if _inf(o):
            return o
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        if _inf(o):
            return o
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        if _inf(o):
            return -o
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        if _inf(o):
            return o
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._bin(o, lambda a, b: b * a)

    def __truediv__(self, o):
        if _inf(o):
            return SymReal(z3.RealVal(0))
        c = self._co(o)
        if c is None:
            return NotImplemented
        if z3.is_int(c):
            c = z3.ToReal(c)
        a = z3.ToReal(self.e) if self.isint else self.e
        ctx().nonzero(c)
        return SymReal(a / c)

    def __rtruediv__(self, o):
        c = self._co(o)
        if c is None:
            return NotImplemented
        if z3.is_int(c):
            c = z3.ToReal(c)
        a = z3.ToReal(self.e) if self.isint else self.e
        ctx().nonzero(a)
        return SymReal(c / a)

    def __floordiv__(self, o):
        q = self / o
        return q.floor()

    def __rfloordiv__(self, o):
        return (o / self).floor()

    def __mod__(self, o):
        return self - o*(self // o)

    def __rmod__(self, o):
        return o - self*(o // self)

    def __divmod__(self, o):
        q = self // o
        return q, self - q*o

    def __neg__(self):
        return SymReal(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymReal(z3.If(self.e >= 0, self.e, -self.e))
    fabs = absolute = __abs__

    def __pow__(self, o):
        return sym_pow(self, o)

    def __rpow__(self, o):
        return sym_fn('pow', o, self)

    # -- comparisons
    def _cmp(self, o, f, posinf, neginf):
        if _inf(o):
            return posinf if o > 0 else neginf
        if isinstance(o, (float, np.floating)) and math.isnan(o):
            return False
        c = self._co(o)
        if c is None:
            return NotImplemented
        a = self.e
        if z3.is_int(a) != z3.is_int(c):
            if z3.is_int(a):
                a = z3.ToReal(a)
            else:
                c = z3.ToReal(c)
        return SymBool(f(a, c))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, True, False)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, True, False)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, False, True)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, False, True)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b, False, False)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b, True, True)
        return True if r is NotImplemented else r

    def __hash__(self):
        return self.e.hash()

    def __bool__(self):
        return ctx().branch(self.e != 0)

    # -- conversions
    def __float__(self):
        return float(ctx().concretise(self.e))

    def __int__(self):
        f = self.trunc()
        return int(ctx().concretise(f.e))

    def __index__(self):
        if not self.isint:
            raise TypeError('symbolic real used as an index')
        return int(ctx().concretise(self.e))

    def __round__(self, n=None):
        if n is None or n == 0:
            return (self + Fraction(1, 2)).floor()
        s = Fraction(10)**n
        return ((self*s) + Fraction(1, 2)).floor()/s

    def __floor__(self):
        return self.floor()

    def __ceil__(self):
        return -((-self).floor())

    def __trunc__(self):
        return self.trunc()

    def floor(self):
        if self.isint:
            return self
        return SymReal(z3.ToInt(self.e))

    def ceil(self):
        return -((-self).floor())

    def trunc(self):
        if self.isint:
            return self
        return SymReal(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)))

    def rint(self):
        return (self + Fraction(1, 2)).floor()

    def is_integer(self):
        return SymBool(z3.IsInt(self.e)) if not self.isint else True

    # -- numpy object-array hooks
    def sqrt(self):
        return sym_sqrt(self)

    def exp(self):
        return sym_fn('exp', self)

    def log(self):
        return sym_fn('ln', self)

    def sin(self):
        return sym_fn('sin', self)

    def cos(self):
        return sym_fn('cos', self)

    def tan(self):
        return sym_fn('sin', self)/sym_fn('cos', self)

    def tanh(self):
        return sym_fn('tanh', self)

    def arctan(self):
        return sym_fn('atan', self)

    def arctan2(self, o):
        return sym_fn('atan2', self, o)

    def square(self):
        return self*self

    def hypot(self, o):
        return sym_sqrt(self*self + o*o)

    def conjugate(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    @property
    def real(self):
        return self

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    def __format__(self, spec):
        return '<sym>'

    def __repr__(self):
        return f'<{str(self.e)[:60]}>'
    __str__ = __repr__


# --------------------------------------------------------------------------------------------------------------
# functions with axioms

def canonical(e, limit=4000):
    """rational expressions with numerators and denominators as sorted sums of monomials (equal ones become the same term)"""
    memo = {}

    def mul(p, q):
        if len(p)*len(q) > limit:
            raise OverflowError
        r = {}
        for a, x in p.items():
            for b, y in q.items():
                k = tuple(sorted(a + b))
                r[k] = r.get(k, 0) + x*y
        return {k: v for k, v in r.items() if v}

    names = {}

    def atom(t):
        k = str(t) if z3.is_const(t) else t.sexpr()
        names[k] = t
        return {(k,): Fraction(1)}

    def poly(t):
        i = t.get_id()
        if i in memo:
            return memo[i][1]
        if z3.is_rational_value(t):
            f = Fraction(t.as_fraction())
            r = {(): f} if f else {}
        elif z3.is_add(t) or z3.is_sub(t):
            r = {}
            for n, a in enumerate(t.children()):
                for k, v in poly(a).items():
                    r[k] = r.get(k, 0) + (v if z3.is_add(t) or not n else -v)
            r = {k: v for k, v in r.items() if v}
        elif z3.is_mul(t):
            r = {(): Fraction(1)}
            for a in t.children():
                r = mul(r, poly(a))
        elif t.decl().kind() == z3.Z3_OP_UMINUS:
            r = {k: -v for k, v in poly(t.arg(0)).items()}
        elif z3.is_div(t):
            n, d = poly(t.arg(0)), poly(t.arg(1))
            if len(d) == 1 and () in d:
                r = {k: v/d[()] for k, v in n.items()}
            else:
                # the denominator with leading coefficient one
                lead = d[min(d)]
                r = mul({k: v/lead for k, v in n.items()}, atom(1/build({k: v/lead for k, v in d.items()})))
        else:
            r = atom(t)
        memo[i] = (t, r)
        return r

    def build(p):
        out = z3.RealVal(0)
        for k in sorted(p):
            m = rv(p[k])
            for a in k:
                m = m*names[a]
            out = out + m
        return out
    try:
        return build(poly(e))
    except OverflowError:
        return e


def sym_sqrt(x):
    if not is_sym(x):
        return math.sqrt(x)
    c = ctx()
    return SymReal(c.root(x.e, 2))


def sym_pow(x, p):
    if isinstance(p, SymReal):
        s = z3.simplify(p.e)
        if z3.is_rational_value(s) or z3.is_int_value(s):
            p = Fraction(s.as_fraction()) if z3.is_rational_value(s) else s.as_long()
        else:
            return sym_fn('pow', x, p)
    f = frac(p)
    if f == 0:
        return SymReal(z3.RealVal(1))
    neg = f < 0
    f = abs(f)
    if f.denominator == 1:
        if f.numerator > 12:
            return sym_fn('pow', x, p)
        r = x.e
        for _ in range(f.numerator - 1):
            r = r*x.e
        r = SymReal(r)
    elif f.denominator <= 8 and f.numerator <= 12:
        root = SymReal(ctx().root(x.e, f.denominator))
        r = root
        for _ in range(f.numerator - 1):
            r = r*root
    else:
        return sym_fn('pow', x, p)
    return 1/r if neg else r


def sym_fn(name, *args):
    """uninterpreted function with the axioms of ctx.fn"""
    if not any(is_sym(a) for a in args):
        table = {'exp': math.exp, 'ln': math.log, 'sin': math.sin, 'cos': math.cos, 'tanh': math.tanh,
                 'atan': math.atan, 'atan2': math.atan2, 'pow': pow, 'erf': math.erf, 'acos': math.acos,
                 'asin': math.asin, 'cosh': math.cosh, 'sinh': math.sinh}
        return table[name](*[float(a) for a in args])
    return SymReal(ctx().fn(name, *[raw(a) for a in args]))


# --------------------------------------------------------------------------------------------------------------
# context: one path

class Failure:
    def __init__(self, name, model, kind, detail=''):
        self.name, self.model, self.kind, self.detail = name, model, kind, detail


class Ctx:
    """state of one symbolic path"""

    def __init__(self, explorer, prefix):
        self.x = explorer
        self.prefix = list(prefix)      # decisions to replay
        self.decisions = []             # list of (bool, had_alternative)
        self.assume = []                # constraints of the path
        self.solver = z3.Solver()
        self.solver.set('timeout', explorer.branch_timeout)
        self.roots = {}
        self.fns = {}
        self.fnargs = {}
        self.syms = {}
        self.bounds = {}
        self.guard, self.needed, self.guarded_ln = [], {}, False
        self.doms = []
        self.uid = 0
        self.concretised = 0

    # -- constraints
    def add(self, e):
        if z3.is_true(e):
            return
        self.assume.append(e)
        self.solver.add(e)

    def fresh(self, base):
        self.uid += 1
        return z3.Real(f'{base}!{self.uid}')

    # -- guards: conditions of the conditional branches being evaluated; a domain condition (divisor, radicand) inside a
    #    branch is only required where that branch is taken
    def push(self, e):
        e = z3.simplify(e)
        self.x.keep.append(e)
        self.guard.append(e)

    def pop(self):
        self.guard.pop()

    def gkey(self):
        return tuple(g.get_id() for g in self.guard)

    def need(self, key, e, dom=None, what=''):
        """domain condition e under the current guard; True when it was new"""
        gs = frozenset(self.gkey())
        done = self.needed.setdefault(key, [])
        if any(g <= gs for g in done):
            return False
        done.append(gs)
        e = z3.Implies(z3.And(*self.guard), e) if self.guard else e
        if dom is not None:
            d = z3.Implies(z3.And(*self.guard), dom) if self.guard else dom
            if self.x.check_domain is True:
                self.x.h._prove_raw(d, 'defined: ' + what, self)
            elif self.x.check_domain == 'end' and not z3.is_true(e):
                # e without the claim that it is defined
                self.doms.append((len(self.assume), None if e is dom or e.eq(d) else z3.Implies(d, e), d))
        self.add(e)
        return True

    def nonzero(self, c):
        """divisions: the claim is about inputs for which the divisor is not zero (z3 division is total)"""
        if z3.is_rational_value(c):
            return
        self.x.keep.append(c)
        self.need(('nz', c.get_id()), c != 0, c != 0, 'divisor is not zero')

    def root(self, e, q):
        e = z3.simplify(e)
        if z3.is_rational_value(e):
            f = Fraction(e.as_fraction())
            if f >= 0:
                r = round(float(f)**(1.0/q)*1000)
                for k in (r - 1, r, r + 1):
                    if Fraction(k, 1000)**q == f:
                        return rv(Fraction(k, 1000))
        k = (e.get_id(), q)
        if k not in self.roots:
            for (kk, qq), v in list(self.roots.items())[:12]:
                if qq == q and same_term(self.fnargs[str(v)][2], e):
                    self.x.keep.append(e)
                    self.roots[k] = v
                    break
        if k not in self.roots:
            r = self.fresh(f'root{q}')
            self.x.keep.append(e)
            self.roots[k] = r
            self.add(r >= 0)
            same = [(self.fnargs[str(v)][2], v) for (kk, qq), v in self.roots.items() if qq == q and v is not r]
            if len(same) <= 6:      # implied by the definition, but spares the solver the algebra
                for oe, v in same:
                    self.add(z3.Implies(oe == e, v == r))
            self.fnargs[str(r)] = ('root', q, e)
        r = self.roots[k]
        pw = r
        for _ in range(q - 1):
            pw = pw*r
        self.need(('root',) + k, pw == e, e >= 0, 'radicand is not negative')
        return r

    def fn(self, name, *args):
        args = tuple(z3.simplify(a) for a in args)
        k = (name,) + tuple(a.get_id() for a in args)
        if name == 'ln':
            self.need(k, args[0] > 0, args[0] > 0, 'logarithm of a positive number')
        if k in self.fns:
            return self.fns[k]
        r = self.fresh(name)
        self.fns[k] = r
        self.x.keep.extend(args)
        a = args[0]
        same = [(v, self.fnargs[str(v)]) for kk, v in self.fns.items() if kk[0] == name and v is not r]
        self.fnargs[str(r)] = (name, args)
        # congruence (two syntactically different but equal arguments)
        for v, (_, oargs) in same:
            self.add(z3.Implies(z3.And(*[x == y for x, y in zip(args, oargs)]), r == v))
        if name == 'exp':
            self.add(r > 0)
            self.add(z3.Implies(a >= 0, r >= 1 + a))
            self.add(z3.Implies(a <= 0, r <= 1))
            self.add(r >= 1 + a)
            for v, (_, (oa,)) in same:
                self.add((a < oa) == (r < v))
        elif name == 'ln':
            def pos(e, *b):
                if self.guard or self.guarded_ln:
                    self.guarded_ln = True
                    e = z3.Implies(z3.And(*[q > 0 for q in (a,) + b]), e)
                self.add(e)
            pos(r <= a - 1)
            pos((a >= 1) == (r >= 0))
            pos((a == 1) == (r == 0))
            for v, (_, (oa,)) in same:
                pos((a < oa) == (r < v), oa)
        elif name in ('sin', 'cos'):
            self.add(z3.And(r >= -1, r <= 1))
            other = 'cos' if name == 'sin' else 'sin'
            ok = (other,) + k[1:]
            if ok in self.fns:
                self.add(self.fns[ok]*self.fns[ok] + r*r == 1)
            if z3.is_rational_value(a) and Fraction(a.as_fraction()) == 0:
                self.add(r == (0 if name == 'sin' else 1))
            d = self.fnargs.get(str(a))
            if d and d[0] == 'atan2':           # the angle of a vector: sine and cosine are its direction
                y, x = d[1]
                n = self.root(z3.simplify(x*x + y*y), 2)
                self.add(z3.If(z3.And(x == 0, y == 0), r == (0 if name == 'sin' else 1), r*n == (y if name == 'sin' else x)))
        elif name == 'tanh':
            self.add(z3.And(r > -1, r < 1))
            self.add((a > 0) == (r > 0))
            self.add((a == 0) == (r == 0))
            for v, (_, (oa,)) in same:
                self.add((a < oa) == (r < v))
        elif name == 'atan':
            self.add(z3.And(r > -1.5708, r < 1.5708))
            self.add((a > 0) == (r > 0))
            self.add((a == 0) == (r == 0))
        elif name == 'pow':
            self.add(z3.Implies(a > 0, r > 0))
            self.add(z3.Implies(z3.And(a >= 0, args[1] > 0), r >= 0))
            self.add(z3.Implies(a == 1, r == 1))
        return r

    # -- branching
    def branch(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        i = len(self.decisions)
        if i < len(self.prefix):
            d, alt = self.prefix[i], False
            self.decisions.append((d, alt))
            self.add(cond if d else z3.Not(cond))
            return d
        x = self.x
        x.branches += 1
        if x.branches > x.max_branches:
            x.truncated = True
            raise Abandon('branch budget')
        t0 = time.time()
        rt = self.solver.check(cond)
        rf = self.solver.check(z3.Not(cond))
        x.note_query(2, time.time() - t0)
        t_ok, f_ok = rt != z3.unsat, rf != z3.unsat
        if not t_ok and not f_ok:
            raise PathInfeasible()
        if t_ok and f_ok:
            self.decisions.append((True, True))
            self.add(cond)
            return True
        d = t_ok
        self.decisions.append((d, False))
        self.add(cond if d else z3.Not(cond))
        return d

    def concretise(self, e):
        e = z3.simplify(e)
        if z3.is_rational_value(e):
            return Fraction(e.as_fraction())
        if z3.is_int_value(e):
            return e.as_long()
        if self.x.strict_concretise:
            raise Unsupported('float() of a symbolic value')
        r = self.solver.check()
        if r != z3.sat:
            raise Abandon('cannot concretise')
        v = model_value(self.solver.model().eval(e, model_completion=True))
        self.concretised += 1
        self.x.concretised += 1
        self.add(e == rv(v) if not z3.is_int(e) else e == int(v))
        return v


def model_value(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    raise Unsupported(f'model value {v}')


# --------------------------------------------------------------------------------------------------------------
# z3 helpers

def ratform(e, memo):
    """real term -> (numerator, {factor id: (factor, power)}): one fraction over a common denominator"""
    k = e.get_id()
    if k in memo:
        return memo[k]
    one = {}
    if z3.is_app(e):
        d = e.decl().kind()
        ch = e.children()
        if d == z3.Z3_OP_DIV:
            n1, d1 = ratform(ch[0], memo)
            n2, d2 = ratform(ch[1], memo)
            if z3.is_rational_value(n2) and not d2:
                r = (n1*(1/n2) if not z3.is_rational_value(n1) else z3.simplify(n1/n2), d1)
            else:
                num = n1
                for f, p in d2.values():
                    for _ in range(p):
                        num = num*f
                # split a product denominator into its factors
                dd = dict(d1)
                st, fs = [n2], []
                while st:
                    t = st.pop()
                    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MUL:
                        st.extend(t.children())
                    else:
                        fs.append(t)
                for t in fs:
                    if z3.is_rational_value(t):
                        num = num*z3.simplify(1/t)
                        continue
                    i = t.get_id()
                    memo.setdefault('keep', []).append(t)
                    dd[i] = (t, dd[i][1] + 1 if i in dd else 1)
                r = (num, dd)
            memo[k] = r
            return r
        if d in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            parts = [ratform(c, memo) for c in ch]
            den = {}
            for _, q in parts:
                for i, (f, p) in q.items():
                    if i not in den or den[i][1] < p:
                        den[i] = (f, p)
            tot = None
            for n, q in parts:
                t = n
                for i, (f, p) in den.items():
                    for _ in range(p - (q[i][1] if i in q else 0)):
                        t = t*f
                if tot is None:
                    tot = t
                else:
                    tot = tot + t if d == z3.Z3_OP_ADD else tot - t
            memo[k] = (tot, den)
            return memo[k]
        if d == z3.Z3_OP_UMINUS:
            n, q = ratform(ch[0], memo)
            memo[k] = (-n, q)
            return memo[k]
        if d == z3.Z3_OP_MUL:
            num, den = None, {}
            for c in ch:
                n, q = ratform(c, memo)
                num = n if num is None else num*n
                for i, (f, p) in q.items():
                    den[i] = (f, p + (den[i][1] if i in den else 0))
            memo[k] = (num, den)
            return memo[k]
    memo[k] = (e, one)
    return memo[k]


def som(e):
    """sum of monomials; repeated, because one pass leaves inner numerals unfolded"""
    for _ in range(3):
        f = z3.simplify(e, som=True, sort_sums=True)
        if f.eq(e):
            break
        e = f
    return e


def same_term(a, b):
    """equal as rational expressions (decided by normalisation, no solver)"""
    try:
        if size(a, 400) >= 400 or size(b, 400) >= 400:
            return False
        d = som(a - b)
        if z3.is_rational_value(d):
            return d.as_fraction() == 0
        n, den = ratform(a - b, {})
        if not den:
            return False
        n = som(n)
        return z3.is_rational_value(n) and n.as_fraction() == 0
    except (z3.Z3Exception, RecursionError):
        return False


def is_zero(q):
    """identically zero as a rational expression (normalisation, no solver)"""
    if not is_sym(q):
        return q == 0
    try:
        n, den = ratform(som(q.e), {})
        n = som(n)
        return z3.is_rational_value(n) and n.as_fraction() == 0
    except (z3.Z3Exception, RecursionError):
        return False


def size(e, cap):
    seen, st = set(), [e]
    while st and len(seen) < cap:
        q = st.pop()
        if q.get_id() in seen:
            continue
        seen.add(q.get_id())
        st.extend(q.children())
    return len(seen)


def eqclaim_numerator(claim):
    """claim of the form  x == 0  (x real) -> x with its denominators cleared (they are known not to vanish)"""
    if not (z3.is_app(claim) and claim.decl().kind() == z3.Z3_OP_EQ and z3.is_real(claim.arg(0))):
        return None
    memo = {}
    n, d = ratform(claim.arg(0) - claim.arg(1), memo)
    if not d:
        return None
    return som(som(n) == 0)


def discharge(constraints, claim, timeout_ms):
    """-> ('unsat'|'sat'|'unknown', model).  Several strategies."""
    neg = z3.simplify(z3.Not(claim))
    if z3.is_false(neg):
        return 'unsat', None
    # sum-of-monomials normal form settles most polynomial identities at once
    try:
        neg2 = z3.simplify(z3.Not(claim), som=True, hoist_cmul=False, flat=True)
        if z3.is_false(neg2):
            return 'unsat', None
        neg3 = z3.simplify(z3.simplify(neg2, som=True, sort_sums=True), som=True, sort_sums=True)
        if z3.is_false(neg3):
            return 'unsat', None
        cl = eqclaim_numerator(claim)
        if cl is not None:
            neg2 = z3.simplify(z3.Not(cl), som=True, hoist_cmul=False, flat=True)
            if z3.is_false(neg2):
                return 'unsat', None
    except (z3.Z3Exception, RecursionError):
        neg2 = neg
    third = max(1000, timeout_ms//3)
    for k, (build) in enumerate((lambda: z3.Solver(),
                                 lambda: z3.Tactic('qfnra-nlsat').solver(),
                                 lambda: z3.Then('simplify', 'propagate-values', 'solve-eqs', 'purify-arith',
                                                 'elim-term-ite', 'solve-eqs', 'smt').solver())):
        try:
            s = build()
            s.set('timeout', third)
            for c in constraints:
                s.add(c)
            s.add(neg2 if k != 2 else neg)
            r = s.check()
            if r == z3.unsat:
                return 'unsat', None
            if r == z3.sat:
                return 'sat', s.model()
        except z3.Z3Exception:
            continue
    return 'unknown', None


class Explorer:
    def __init__(self, h):
        self.h = h
        self.branches = 0
        self.max_branches = 20000
        self.max_paths = 3000
        self.paths = 0
        self.truncated = False
        self.concretised = 0
        self.queries = 0
        self.solver_time = 0.0
        self.keep = []
        self.branch_timeout = 4000
        self.strict_concretise = False
        self.check_domain = False
        self.domain_time, self.domain_unknown = 0.0, 0
        self.infeasible = 0

    def note_query(self, n, t):
        self.queries += n
        self.solver_time += t
