"""UFL -> symbolic value, at one point.

``Evaluator`` walks the UFL expression that the real code built and returns its value at one point as a (symbolic)
number.  ``env`` supplies the terminals.  Numbers: Fraction / float constants are folded, everything else is SymReal.
"""
from fractions import Fraction
import math
import numpy as np
import ufl
from ufl.algorithms.apply_algebra_lowering import apply_algebra_lowering
from ufl.algorithms.apply_derivatives import apply_derivatives
from . import core
from .core import SymReal, SymBool, Unsupported, frac, is_sym, z3, raw, rv, sym_pow, sym_sqrt, sym_fn, raw_bool


def simp_lit(x):
    return frac(x)


def iszero(x):
    return not is_sym(x) and x == 0


def isone(x):
    return not is_sym(x) and x == 1


def add(a, b):
    if iszero(a):
        return b
    if iszero(b):
        return a
    return a + b


def mul(a, b):
    if iszero(a) or iszero(b):
        return Fraction(0)
    if isone(a):
        return b
    if isone(b):
        return a
    return a*b


def fsqrt(a):
    if is_sym(a):
        return sym_sqrt(a)
    f = frac(a)
    n, d = math.isqrt(f.numerator) if f >= 0 else 0, math.isqrt(f.denominator)
    if f >= 0 and n*n == f.numerator and d*d == f.denominator:
        return Fraction(n, d)
    if core.ctx() is not None:
        return SymReal(core.ctx().root(rv(f), 2))
    return math.sqrt(a)


def ite(c, a, b):
    if is_sym(c):
        e = z3.simplify(c.e)
        if z3.is_true(e):
            return a
        if z3.is_false(e):
            return b
        return SymReal(z3.If(e, raw(a), raw(b)))
    return a if c else b


def _canon(a, b):
    """min/max of the same two terms always gives the same term"""
    if is_sym(a) and is_sym(b):
        a, b = SymReal(z3.simplify(a.e)), SymReal(z3.simplify(b.e))
        if core.ctx() is not None:
            core.ctx().x.keep.extend((a.e, b.e))
        if a.e.get_id() > b.e.get_id():
            a, b = b, a
    return a, b


def smax(a, b):
    a, b = _canon(a, b)
    return ite(a >= b, a, b)


def smin(a, b):
    a, b = _canon(a, b)
    return ite(a <= b, a, b)


class Evaluator:
    def __init__(self, env):
        self.env = env
        self.cache = {}
        self.keep = []
        self.numeric = getattr(env, 'numeric', False)   # irrational constants as their double value

    def lower(self, expr):
        return apply_derivatives(apply_algebra_lowering(expr))

    def __call__(self, expr, comp=(), side=None):
        e = self.lower(ufl.as_ufl(expr))
        self.keep.append(e)
        return self.ev(e, tuple(comp), {}, side)

    def tensor(self, expr, side=None):
        e = self.lower(ufl.as_ufl(expr))
        self.keep.append(e)
        out = np.empty(e.ufl_shape, dtype=object)
        for i in np.ndindex(e.ufl_shape):
            out[i] = self.ev(e, i, {}, side)
        return out if e.ufl_shape else out[()]

    def ev(self, e, comp, idx, side):
        fi = e.ufl_free_indices
        key = (id(e), comp, tuple(idx[i] for i in fi), side)
        if key in self.cache:
            return self.cache[key]
        x = core.ctx()
        if x is not None and x.guard:
            key += (x.gkey(),)
            if key in self.cache:
                return self.cache[key]
        r = self._ev(e, comp, idx, side)
        self.cache[key] = r
        self.keep.append(e)
        return r

    def _ev(self, e, comp, idx, side):
        U = ufl.classes
        ev = self.ev
        if isinstance(e, U.Zero):
            return Fraction(0)
        if isinstance(e, (U.ScalarValue,)):
            v = e._value
            return simp_lit(v) if not isinstance(v, complex) else simp_lit(v.real)
        if isinstance(e, U.Identity):
            return Fraction(1) if comp[0] == comp[1] else Fraction(0)
        if isinstance(e, U.PermutationSymbol):
            return Fraction(int(np.linalg.det([[1.0 if c == k else 0.0 for k in range(len(comp))] for c in comp])))
        if isinstance(e, U.Variable):
            return ev(e.ufl_operands[0], comp, idx, side)
        if isinstance(e, U.Label):
            return 0
        if isinstance(e, (U.Conj, U.Real)):
            return ev(e.ufl_operands[0], comp, idx, side)
        if isinstance(e, U.PositiveRestricted):
            return ev(e.ufl_operands[0], comp, idx, '+')
        if isinstance(e, U.NegativeRestricted):
            return ev(e.ufl_operands[0], comp, idx, '-')
        if isinstance(e, U.Grad):
            d = [comp[-1]]
            f = e.ufl_operands[0]
            c = comp[:-1]
            while isinstance(f, U.Grad):
                f = f.ufl_operands[0]
                d.append(c[-1])
                c = c[:-1]
            if isinstance(f, (U.PositiveRestricted, U.NegativeRestricted)):
                side = '+' if isinstance(f, U.PositiveRestricted) else '-'
                f = f.ufl_operands[0]
            return self.env.terminal(f, c, side, tuple(sorted(d)))
        if isinstance(e, U.Terminal):
            return self.env.terminal(e, comp, side, ())
        ops = e.ufl_operands
        if isinstance(e, U.Sum):
            return add(ev(ops[0], comp, idx, side), ev(ops[1], comp, idx, side))
        if isinstance(e, U.Product):
            a = ev(ops[0], (), idx, side)
            if iszero(a):
                return Fraction(0)
            return mul(a, ev(ops[1], (), idx, side))
        if isinstance(e, U.Division):
            a = ev(ops[0], comp, idx, side)
            b = ev(ops[1], (), idx, side)
            if iszero(a):
                return Fraction(0)
            if isone(b):
                return a
            if not is_sym(a) and not is_sym(b):
                return frac(a)/frac(b)
            return a/b
        if isinstance(e, U.Power):
            a = ev(ops[0], (), idx, side)
            p = ev(ops[1], (), idx, side)
            return self.power(a, p)
        if isinstance(e, U.Abs):
            a = ev(ops[0], comp, idx, side)
            return abs(a)
        if isinstance(e, U.Sqrt):
            a = ev(ops[0], (), idx, side)
            if self.numeric and not is_sym(a):
                r = fsqrt(a)
                return r if not is_sym(r) else frac(math.sqrt(a))
            return fsqrt(a)
        if isinstance(e, U.Atan2):
            return sym_fn('atan2', ev(ops[0], (), idx, side), ev(ops[1], (), idx, side))
        if isinstance(e, U.MathFunction):
            a = ev(ops[0], (), idx, side)
            if not is_sym(a):
                if iszero(a) and e._name in ('sin', 'tan', 'tanh', 'sinh', 'atan', 'asin', 'erf'):
                    return Fraction(0)
                if iszero(a) and e._name in ('cos', 'exp', 'cosh'):
                    return Fraction(1)
                if e._name == 'ln' and a == 1:
                    return Fraction(0)
                if self.numeric:
                    return frac(getattr(math, {'ln': 'log'}.get(e._name, e._name))(float(a)))
                if core.ctx() is None:
                    return getattr(math, {'ln': 'log'}.get(e._name, e._name))(float(a))
                return SymReal(core.ctx().fn(e._name, rv(frac(a))))
            if e._name == 'tan':
                return sym_fn('sin', a)/sym_fn('cos', a)
            return sym_fn(e._name, a)
        if isinstance(e, U.MaxValue):
            return smax(ev(ops[0], (), idx, side), ev(ops[1], (), idx, side))
        if isinstance(e, U.MinValue):
            return smin(ev(ops[0], (), idx, side), ev(ops[1], (), idx, side))
        if isinstance(e, U.Conditional):
            c = self.cond(ops[0], idx, side)
            if not is_sym(c):
                return ev(ops[1] if c else ops[2], comp, idx, side)
            x = core.ctx()
            if x is None:
                t, f = ev(ops[1], comp, idx, side), ev(ops[2], comp, idx, side)
            else:
                x.push(raw_bool(c))
                t = ev(ops[1], comp, idx, side)
                x.pop()
                x.push(z3.Not(raw_bool(c)))
                f = ev(ops[2], comp, idx, side)
                x.pop()
            if isinstance(ops[0], (U.GT, U.GE, U.LT, U.LE)) and is_sym(t) and is_sym(f):
                a, b = (ev(o, (), idx, side) for o in ops[0].ufl_operands)
                if is_sym(a) and is_sym(b):
                    if isinstance(ops[0], (U.LT, U.LE)):
                        a, b = b, a
                    if a.e.eq(t.e) and b.e.eq(f.e):
                        return smax(a, b)
                    if a.e.eq(f.e) and b.e.eq(t.e):
                        return smin(a, b)
            return ite(c, t, f)
        if isinstance(e, U.Indexed):
            A, mi = ops
            c = tuple(int(i) if isinstance(i, ufl.core.multiindex.FixedIndex) else idx[i.count()] for i in mi.indices())
            return ev(A, c, idx, side)
        if isinstance(e, U.IndexSum):
            body, mi = ops
            i = mi.indices()[0].count()
            n = e.dimension()
            s = Fraction(0)
            for k in range(n):
                d = dict(idx)
                d[i] = k
                s = add(s, ev(body, comp, d, side))
            return s
        if isinstance(e, U.ComponentTensor):
            body, mi = ops
            d = dict(idx)
            for i, k in zip(mi.indices(), comp):
                d[i.count()] = k
            return ev(body, (), d, side)
        if isinstance(e, U.ListTensor):
            return ev(ops[comp[0]], comp[1:], idx, side)
        # compound operators that survived (interior of coefficient derivatives etc.)
        if isinstance(e, (U.Sign,) if hasattr(U, 'Sign') else ()):
            a = ev(ops[0], (), idx, side)
            return ite(a > 0, Fraction(1), ite(a < 0, Fraction(-1), Fraction(0)))
        if type(e).__name__ == 'Sign':
            a = ev(ops[0], (), idx, side)
            return ite(a > 0, Fraction(1), ite(a < 0, Fraction(-1), Fraction(0)))
        if type(e).__name__ in ('CellAvg', 'FacetAvg'):
            raise Unsupported(type(e).__name__)
        raise Unsupported(f'UFL node {type(e).__name__}')

    def power(self, a, p):
        if is_sym(p):
            return sym_fn('pow', a, p)
        p = frac(p)
        if p == 0:
            return Fraction(1)
        if p == 1:
            return a
        if not is_sym(a):
            a = frac(a)
            if p.denominator == 1:
                return a**int(p)
            if a == 0 and p > 0:
                return Fraction(0)
            if self.numeric:
                return frac(float(a)**float(p))
            if core.ctx() is None:
                return float(a)**float(p)
            return sym_pow(SymReal(rv(a)), p)
        return sym_pow(a, p)

    def cond(self, c, idx, side):
        U = ufl.classes
        ops = c.ufl_operands
        if isinstance(c, U.AndCondition):
            a, b = (self.cond(o, idx, side) for o in ops)
            if not is_sym(a) and not is_sym(b):
                return a and b
            return SymBool(z3.And(raw_bool(a), raw_bool(b)))
        if isinstance(c, U.OrCondition):
            a, b = (self.cond(o, idx, side) for o in ops)
            if not is_sym(a) and not is_sym(b):
                return a or b
            return SymBool(z3.Or(raw_bool(a), raw_bool(b)))
        if isinstance(c, U.NotCondition):
            a = self.cond(ops[0], idx, side)
            return SymBool(z3.Not(a.e)) if is_sym(a) else not a
        a, b = (self.ev(o, (), idx, side) for o in ops)
        if isinstance(c, U.LT):
            return a < b
        if isinstance(c, U.LE):
            return a <= b
        if isinstance(c, U.GT):
            return a > b
        if isinstance(c, U.GE):
            return a >= b
        if isinstance(c, U.EQ):
            return a == b
        if isinstance(c, U.NE):
            return a != b
        raise Unsupported(f'condition {type(c).__name__}')
