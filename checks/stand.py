"""stand-ins with symbolic values: uninterpreted updates, recording fields, scoped patches"""
import datetime
import math
from fractions import Fraction as Fr
from symx.core import *
from symx.harness import *
from symx import core, harness


class UF:
    """deterministic updates about which nothing is known: an uninterpreted function in the solver, a fixed generic function
    (bounded, no symmetries) in a concrete run"""
    def __init__(self, h):
        self.h = h
        self.names = {}

    def __call__(self, name, *args):
        if self.h.symbolic:
            zs = [raw(a) for a in args]
            zs = [z3.ToReal(z) if z3.is_int(z) else (z3.If(z, z3.RealVal(1), z3.RealVal(0)) if z3.is_bool(z) else z) for z in zs]
            f = z3.Function(f'{name}/{len(zs)}', *([z3.RealSort()]*(len(zs) + 1)))
            return SymReal(f(*zs))
        seed = sum((i + 1)*ord(c) for i, c in enumerate(name)) % 997
        s = 0.1*seed
        for i, a in enumerate(args):
            s += math.sin(float(a)*(0.37 + 0.11*i) + 1.3*i + seed)*(1 + 0.3*i)
        return s


class Val:
    """a field that holds one (symbolic) number"""
    def __init__(self, v, name=''):
        self.v, self.name_ = v, name

    def assign(self, o):
        self.v = o.v if isinstance(o, Val) else o
        return self
    interpolate = project = assign

    def name(self):
        return self.name_

    def function_space(self):
        return 'space'

    def copy(self, deepcopy=False):
        return Val(self.v, self.name_)

    def rename(self, *a):
        pass


class MixedVal:
    def __init__(self, *parts):
        self.parts = parts

    @property
    def subfunctions(self):
        return self.parts

    def split(self):
        return self.parts

    def function_space(self):
        return 'mixed'

    def assign(self, o):
        for a, b in zip(self.parts, o.parts):
            a.assign(b)
        return self


def patched(*pairs):
    """(object, attribute, value); taken out while a counterexample is replayed"""
    return harness.patched(*pairs)


# ---- stand-ins for number types and dates that may hold symbolic values ------------------------------------------------------
class _Meta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, cls.base)


class SFloat(metaclass=_Meta):
    base = float

    def __new__(cls, x=0.0):
        return x if isinstance(x, SymReal) else float(x)


class SInt(metaclass=_Meta):
    base = int

    def __new__(cls, x=0):
        return x.trunc() if isinstance(x, SymReal) else int(x)


class Delta:
    def __init__(self, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        self.s = seconds + days*86400 + microseconds*Fr(1, 10**6) + milliseconds*Fr(1, 1000) + minutes*60 + hours*3600 \
            + weeks*604800

    def total_seconds(self):
        return self.s


class Date:
    def __init__(self, s, tzinfo='utc'):
        self.s, self.tzinfo = s, tzinfo

    def astimezone(self, tz=None):
        return self

    def replace(self, tzinfo):
        # a naive date holds its wall clock time
        off = tzinfo.utcoffset(None)
        return Date(self.s - (off.s if isinstance(off, Delta) else off.total_seconds()), tzinfo)

    def __add__(self, d):
        return Date(self.s + d.s, self.tzinfo)
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, Date):
            if (self.tzinfo is None) != (o.tzinfo is None):
                raise TypeError("can't subtract offset-naive and offset-aware datetimes")
            return Delta(seconds=self.s - o.s)
        return Date(self.s - o.s, self.tzinfo)

    def __gt__(self, o):
        return self.s > o.s

    def __ge__(self, o):
        return self.s >= o.s

    def __lt__(self, o):
        return self.s < o.s

    def __le__(self, o):
        return self.s <= o.s

    def __format__(self, f):
        return 'date'

    def isoformat(self):
        return self


class DT:
    timedelta = Delta

    class datetime:
        @staticmethod
        def fromisoformat(s):
            return s
