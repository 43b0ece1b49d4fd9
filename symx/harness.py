"""Harness objects, exploration loop, replay and the check runner."""
import argparse
import contextlib
import json
import math
import os
import random
import sys
import time
import traceback
from fractions import Fraction

import numpy as np
from . import core
from .core import (Ctx, Explorer, SymReal, SymBool, PathInfeasible, Abandon, Unsupported, z3, raw, raw_bool, rv,
                   discharge, model_value, is_sym)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class ReplayViolation(Exception):
    pass


class PreconditionFailed(BaseException):
    """concrete replay: the model does not satisfy the harness' assumptions (rounding)"""


class SymH:
    """harness handle, symbolic mode"""
    symbolic = True

    def __init__(self, check, name, x):
        self.check, self.name, self.x = check, name, x
        self.c = None
        self.notes = {}

    def _reg(self, name, v):
        self.c.syms[name] = v
        return v

    def real(self, name, lo=None, hi=None, gt=None, lt=None):
        v = self._reg(name, z3.Real(name))
        self.c.bounds[name] = (lo if lo is not None else gt, hi if hi is not None else lt)
        if lo is not None:
            self.c.add(v >= rv(lo))
        if hi is not None:
            self.c.add(v <= rv(hi))
        if gt is not None:
            self.c.add(v > rv(gt))
        if lt is not None:
            self.c.add(v < rv(lt))
        return SymReal(v)

    def reals(self, name, n, **kw):
        return [self.real(f'{name}{i}', **kw) for i in range(n)]

    def int(self, name, lo=None, hi=None):
        v = self._reg(name, z3.Int(name))
        if lo is not None:
            self.c.add(v >= lo)
        if hi is not None:
            self.c.add(v <= hi)
        return SymReal(v)

    def bool(self, name):
        v = self._reg(name, z3.Bool(name))
        return self.c.branch(v)

    def symbool(self, name):
        return SymBool(self._reg(name, z3.Bool(name)))

    def choice(self, name, seq):
        seq = list(seq)
        v = self._reg(name, z3.Int(name))
        self.c.add(v >= 0)
        self.c.add(v < len(seq))
        for i in range(len(seq) - 1):
            if self.c.branch(v == i):
                return seq[i]
        return seq[-1]

    def assume(self, cond):
        e = raw_bool(cond)
        self.c.add(e)
        if z3.is_false(z3.simplify(e)):
            raise PathInfeasible()

    def assume_eq(self, a, b):
        self.assume(SymBool(raw(a) == raw(b)))

    def feasible(self):
        """steer: drop the path when the assumptions so far are contradictory"""
        t0 = time.time()
        r = self.c.solver.check()
        self.x.note_query(1, time.time() - t0)
        if r == z3.unsat:
            raise PathInfeasible()

    def prove(self, cond, name):
        if not is_sym(cond) and not isinstance(cond, z3.ExprRef):
            return self._prove_raw(z3.BoolVal(bool(cond)), name, self.c)
        return self._prove_raw(raw_bool(cond), name, self.c)

    def prove_eq(self, a, b, name, tol=0, canon=False, **kw):
        """``canon``: bring the difference to a sum of monomials first (rational expressions with equal denominators)"""
        if isinstance(a, (list, tuple, np.ndarray)) or isinstance(b, (list, tuple, np.ndarray)):
            aa, bb = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
            if aa.shape != bb.shape:
                try:
                    aa, bb = np.broadcast_arrays(aa, bb)
                except ValueError:
                    return self._prove_raw(z3.BoolVal(False), name + f' shape {aa.shape}!={bb.shape}', self.c)
            for i in np.ndindex(aa.shape):
                self.prove_eq(aa[i], bb[i], f'{name}[{",".join(map(str, i))}]' if i else name, tol, canon)
            return
        if not is_sym(a) and not is_sym(b) and not isinstance(a, z3.ExprRef) and not isinstance(b, z3.ExprRef):
            return self._prove_raw(z3.BoolVal(_close(a, b, tol)), name, self.c)
        d = _toreal(raw(a)) - _toreal(raw(b))
        if canon:
            d2 = z3.simplify(core.canonical(d), som=True)
            d = d2 if z3.is_rational_value(d2) else d
        if tol:
            t = rv(tol)
            claim = z3.And(d <= t, d >= -t)
        else:
            claim = d == 0
        m = rv(Fraction(1, 100)) if not tol else rv(Fraction(tol)*10)
        self._prove_raw(claim, name, self.c, margin=z3.Or(d >= m, d <= -m))

    def prove_le(self, a, b, name, tol=0):
        if not is_sym(a) and not is_sym(b):
            return self._prove_raw(z3.BoolVal(bool(float(a) <= float(b) + float(tol)
                                                   + 1e-9*(abs(float(a)) + abs(float(b))))), name, self.c)
        d = _toreal(raw(a)) - _toreal(raw(b)) - rv(tol)
        self._prove_raw(d <= 0, name, self.c, margin=d >= rv(Fraction(1, 100)))

    def prove_ge(self, a, b, name, tol=0):
        self.prove_le(b, a, name, tol)

    def prove_lt(self, a, b, name):
        if not is_sym(a) and not is_sym(b):
            return self._prove_raw(z3.BoolVal(bool(a < b)), name, self.c)
        d = _toreal(raw(a)) - _toreal(raw(b))
        self._prove_raw(d < 0, name, self.c, margin=d >= rv(Fraction(1, 100)))

    # --
    def _prove_raw(self, claim, name, c, margin=None):
        ck = self.check
        x = self.x
        ck.obligations += 1
        key = (self.name, name)
        ck.obl_names[key] = ck.obl_names.get(key, 0) + 1
        t0 = time.time()
        r, m = discharge(c.assume, claim, ck.timeout_ms)
        dt = time.time() - t0
        x.note_query(1, dt)
        if dt > 5:
            ck.slow.append((self.name, name, round(dt, 1)))
        if os.environ.get('VERIF_DEBUG'):
            print(f'    [{self.name}] {name}: {r} {dt:.2f}s', flush=True)
        if r == 'unsat':
            ck.discharged += 1
            return True
        if r == 'unknown':
            # cheap first: real runs on inputs of this path
            saved, core._CTX = core._CTX, None
            try:
                ck._probe(self, c)
            finally:
                core._CTX = saved
            if ck.violations and not os.environ.get('VERIF_ALL'):
                raise Stop()
            m = self._hunt(c, claim) if len(ck.inconclusive) < 4 else None
            if m is None:
                ck.inconclusive.append((self.name, name))
                return False
        # counterexample: prefer small numbers and a clear margin
        models = []
        for extra in self._nice(c, margin):
            s = z3.Solver()
            s.set('timeout', 5000)
            for a in c.assume:
                s.add(a)
            s.add(z3.Not(claim))
            for e in extra:
                s.add(e)
            try:
                if s.check() == z3.sat:
                    models.append(self._values(s.model(), c))
                    if len(models) >= 3:
                        break
            except (z3.Z3Exception, Unsupported):
                pass
        try:
            models.append(self._values(m, c))
        except Unsupported:
            pass
        ck.counterexample(self, name, models)
        return False

    def _nice(self, c, margin):
        reals = [v for v in c.syms.values() if z3.is_real(v)]
        box = [z3.And(v <= 20, v >= -20) for v in reals]
        box2 = [z3.Or(v == 0, z3.And(v <= 100000, v >= -100000, z3.Or(v >= rv(Fraction(1, 10000)), v <= rv(Fraction(-1, 10000)))))
                for v in reals]
        mg = [margin] if margin is not None else []
        gen = []
        rnd = random.Random(self.check.seed)
        for v in reals:
            gen.append(z3.Or(v >= rv(Fraction(rnd.randint(1, 9), 10)), v <= -rv(Fraction(rnd.randint(1, 9), 10))))
        out = [box + gen + mg, box + mg, box2 + mg, mg, box]
        # values that were generalised (SymFD.cut): prefer models in which they are what the code computed
        hints = getattr(c, 'hints', [])
        if hints:
            out = [o + hints for o in out[:4]] + [hints] + out
        return [o for o in out if o]

    def _generic(self, c):
        """values away from zero wherever the path allows it"""
        s = z3.Solver()
        s.set('timeout', 1000)
        for a in c.assume:
            s.add(a)
        rnd = random.Random(7)
        t0 = time.time()
        for v in c.syms.values():
            if not z3.is_real(v) or time.time() - t0 > 20:
                continue
            for e in (v == rv(Fraction(rnd.randint(3, 17), 10)), v == rv(Fraction(-rnd.randint(3, 17), 10)), v != 0):
                s.push()
                s.add(e)
                if s.check() == z3.sat:
                    break
                s.pop()
        return self._values(s.model(), c) if s.check() == z3.sat else None

    def _hunt(self, c, claim):
        """solver said unknown: let it search sub-boxes with some symbols pinned"""
        rnd = random.Random(self.check.seed)
        syms = [v for v in c.syms.values() if z3.is_real(v)]
        t0 = time.time()
        for k in range(12):
            if time.time() - t0 > 15:
                break
            s = z3.Solver() if k % 2 else z3.Tactic('qfnra-nlsat').solver()
            s.set('timeout', 2000)
            for a in c.assume:
                s.add(a)
            s.add(z3.Not(claim))
            # pin progressively, only to values the assumptions allow
            base = z3.Solver()
            base.set('timeout', 500)
            for a in c.assume:
                base.add(a)
            for v in rnd.sample(syms, int(len(syms)*rnd.uniform(0.4, 1.0))):
                for _ in range(4):
                    val = rv(Fraction(rnd.choice([0, 1, -1, 2, 3, -2, 5, 10, 1, 7, -3]), rnd.choice([1, 1, 2, 4, 10])))
                    base.push()
                    base.add(v == val)
                    if base.check() == z3.sat:
                        s.add(v == val)
                        break
                    base.pop()
            try:
                if s.check() == z3.sat:
                    return s.model()
            except z3.Z3Exception:
                continue
        return None

    def _values(self, m, c):
        out = {}
        for k, v in c.syms.items():
            out[k] = model_value(m.eval(v, model_completion=True))
        return out


def _toreal(e):
    return z3.ToReal(e) if z3.is_int(e) else e


def _names(e):
    out, todo, seen = set(), [e], set()
    while todo:
        q = todo.pop()
        if q.get_id() in seen:
            continue
        seen.add(q.get_id())
        if z3.is_const(q) and q.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(str(q))
        elif z3.is_app(q) and q.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add('?')
        todo.extend(q.children())
    return out


def _close(a, b, tol=0):
    if a is b:
        return True
    try:
        a, b = float(a), float(b)
    except (TypeError, ValueError):
        return a == b
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= float(tol)*1.0001 + 1e-8*max(1e-3, abs(a), abs(b))


class ConcH:
    """harness handle, concrete replay on the unpatched code"""
    symbolic = False

    def __init__(self, name, values):
        self.name, self.values = name, values
        self.failed = []
        self.passed = 0
        self.notes = {}

    def _get(self, name, default=0.0):
        return self.values.get(name, default)

    def real(self, name, lo=None, hi=None, gt=None, lt=None):
        d = 0.0
        for b in (lo, hi):
            if b is not None:
                d = float(b)
        if gt is not None:
            d = float(gt) + 1.0 if lt is None else 0.5*(float(gt) + float(lt))
        return float(self._get(name, d))

    def reals(self, name, n, **kw):
        return [self.real(f'{name}{i}', **kw) for i in range(n)]

    def int(self, name, lo=None, hi=None):
        return int(self._get(name, lo if lo is not None else 0))

    def bool(self, name):
        return bool(self._get(name, False))
    symbool = bool

    def choice(self, name, seq):
        return list(seq)[int(self._get(name, 0))]

    def assume(self, cond):
        if not bool(np.all(cond)):
            raise PreconditionFailed()

    def assume_eq(self, a, b):
        if not _close(a, b, 1e-9):
            raise PreconditionFailed()

    def feasible(self):
        pass

    def _res(self, ok, name, detail=''):
        if ok:
            self.passed += 1
        else:
            self.failed.append((name, detail))

    def prove(self, cond, name):
        self._res(bool(np.all(cond)), name)

    def prove_eq(self, a, b, name, tol=0, scale=1.0, canon=False):
        aa, bb = np.asarray(a), np.asarray(b)
        if aa.dtype == object or bb.dtype == object or aa.dtype.kind in 'USM' or bb.dtype.kind in 'USM':
            ok = aa.shape == bb.shape and all(_close(p, q, tol) for p, q in zip(aa.ravel(), bb.ravel()))
        else:
            try:
                aa, bb = np.broadcast_arrays(aa, bb)
                if not np.all(np.isfinite(bb)):
                    raise PreconditionFailed()
                ok = all(_close(p, q, max(float(tol), 1e-9*scale)) for p, q in zip(aa.ravel(), bb.ravel()))
            except ValueError:
                ok = False
        self._res(ok, name, f'{a!r} vs {b!r}'[:200])

    def prove_le(self, a, b, name, tol=0):
        ok = float(a) <= float(b) + float(tol) + 1e-9*(1e-3 + abs(float(a)) + abs(float(b)))
        self._res(ok, name, f'{a!r} <= {b!r}')

    def prove_ge(self, a, b, name, tol=0):
        self.prove_le(b, a, name, tol)

    def prove_lt(self, a, b, name):
        self._res(float(a) < float(b), name, f'{a!r} < {b!r}')


class Stop(Exception):
    pass


#: exceptions of the real code on a valid input that count as a violation (others are engine/harness errors)
EXC_VIOLATION = (IndexError, ZeroDivisionError, ValueError, AssertionError, FloatingPointError, OverflowError,
                 UnboundLocalError, NameError)


def _in_repo(e):
    """the innermost frame outside of libraries belongs to /repo"""
    tb = e.__traceback__
    last = None
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(VERIF):
            last = 'verif'
        elif '/thetis/' in fn and 'site-packages' not in fn:
            last = 'repo'
        tb = tb.tb_next
    return last == 'repo'


class Check:
    def __init__(self, pid, title, level='model_checking', timeout_ms=20000):
        ap = argparse.ArgumentParser()
        ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
        ap.add_argument('--replay')
        ap.add_argument('--only')
        a, _ = ap.parse_known_args()
        self.pid, self.title, self.level = pid, title, level
        self.tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
        self.only = a.only
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.timeout_ms = timeout_ms if self.tier == 'quick' else timeout_ms*6
        self.t0 = time.time()
        self.obligations = self.discharged = 0
        self.obl_names = {}
        self.inconclusive = []
        self.slow = []
        self.paths = self.branches = self.queries = 0
        self.solver_time = 0.0
        self.harnesses = []
        self.functions = []
        self.bounds = []
        self.assumptions = ['the claim is over real (not floating-point) arithmetic: binary64 literals are read as the'
                            ' short rational that rounds to them; rounding error is outside the claim']
        self.violations = []        # confirmed
        self.known = []
        self.unconfirmed = []
        self.errors = []
        self.validated = 0
        self.samples = []
        self.concretised = 0
        self.vacuous = []
        self.replay_file = a.replay
        self.registry = {}
        self.notes = []
        self.known_list = self._load_known()
        self.known_hit = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def _load_known(self):
        out = []
        p = os.path.join(VERIF, 'known_findings.jsonl')
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                if line.startswith('{'):
                    d = json.loads(line)
                    if d.get('property') == self.pid and d.get('kind') == 'known':
                        out.append(d)
        return out

    def encoded(self, *names):
        for n in names:
            if n not in self.functions:
                self.functions.append(n)

    def bound(self, *b):
        self.bounds.extend(b)

    def assumed(self, *b):
        self.assumptions.extend(b)

    # -----------------------------------------------------------------------------------------------------------
    def harness(self, name, fn, max_paths=3000, max_branches=20000, expect_paths=1, validate=True,
                raises_ok=(), timeout_ms=None, check_domain='end', strict_concretise=False):
        """explore ``fn`` symbolically"""
        self.registry[name] = fn
        if self.replay_file:
            return
        if self.only and self.only not in name:
            return
        old = self.timeout_ms
        if timeout_ms:
            self.timeout_ms = timeout_ms if self.tier == 'quick' else timeout_ms*4
        x = Explorer(None)
        x.max_branches, x.max_paths = max_branches, max_paths
        x.check_domain = check_domain
        x.strict_concretise = strict_concretise
        h = SymH(self, name, x)
        x.h = h
        t0 = time.time()
        ob0, di0 = self.obligations, self.discharged
        inc0 = len(self.inconclusive)
        stack = [[]]
        feasible = 0
        nproved_paths = 0
        while stack:
            if x.paths >= max_paths:
                x.truncated = True
                break
            prefix = stack.pop()
            c = Ctx(x, prefix)
            h.c = c
            core._CTX = c
            x.paths += 1
            ob1 = self.obligations
            status = 'ok'
            try:
                fn(h)
            except PathInfeasible:
                status = 'infeasible'
                x.infeasible += 1
            except Abandon as e:
                status = 'abandoned'
                x.truncated = True
            except Stop:
                pass
            except Exception as e:       # noqa: the real code raised (or the engine cannot model it)
                status = 'raised'
                self._raised(h, c, e, raises_ok)
            finally:
                core._CTX = None
            # alternatives of the decisions taken beyond the prefix
            for i in range(len(c.decisions) - 1, len(prefix) - 1, -1):
                d, alt = c.decisions[i]
                if alt:
                    stack.append([q for q, _ in c.decisions[:i]] + [not d])
            if status == 'ok':
                # reachability twin: the end of the path with assert(false) must come back violated
                t1 = time.time()
                for s, ms in ((z3.Solver(), 2000), (z3.Tactic('qfnra-nlsat').solver(), 2000), (z3.Solver(), 10000)):
                    s.set('timeout', ms)
                    for a in c.assume:
                        s.add(a)
                    try:
                        r = s.check()
                    except z3.Z3Exception:
                        r = z3.unknown
                    if r != z3.unknown:
                        break
                x.note_query(1, time.time() - t1)
                if r == z3.sat:
                    feasible += 1
                    if self.obligations > ob1:
                        nproved_paths += 1
                    if validate and self.validated_for(name) < 2 and self.obligations > ob1:
                        self._validate(h, c, s.model())
                elif r == z3.unknown:
                    rr = self._twin_unknown(c)
                    if rr:
                        feasible += 1
                        nproved_paths += 1
                if check_domain == 'end' and c.doms and x.domain_time < 20:
                    self._domain(h, c, x)
            if len(self.inconclusive) > inc0 and not self.violations:
                inc0 = len(self.inconclusive)
                self._probe(h, c)
            if self.violations and not os.environ.get('VERIF_ALL'):
                break
        if nproved_paths < expect_paths and not self.violations and not self.unconfirmed:
            self.vacuous.append((name, nproved_paths, expect_paths))
        if x.truncated:
            self.notes.append(f'{name}: exploration truncated at {x.paths} paths / {x.branches} branches')
        self.paths += x.paths - x.infeasible
        self.branches += x.branches
        self.queries += x.queries
        self.solver_time += x.solver_time
        self.concretised += x.concretised
        self.harnesses.append({'harness': name, 'paths': x.paths, 'feasible_paths_with_obligations': nproved_paths,
                               'branches': x.branches, 'queries': x.queries,
                               'obligations': self.obligations - ob0, 'discharged': self.discharged - di0,
                               'solver_s': round(x.solver_time, 3), 'wall_s': round(time.time() - t0, 3),
                               'concretised': x.concretised, 'truncated': x.truncated})
        self.timeout_ms = old
        if os.environ.get('VERIF_DEBUG') or os.environ.get('VERIF_PROGRESS'):
            r = self.harnesses[-1]
            if r['wall_s'] > 3 or r['discharged'] != r['obligations'] or r['truncated'] or r['concretised'] or not nproved_paths \
                    or os.environ.get('VERIF_PROGRESS') == '2':
                print(f"   {name}: paths {r['paths']}/{nproved_paths} obl {r['discharged']}/{r['obligations']} q {r['queries']}"
                      f" solver {r['solver_s']} wall {r['wall_s']} conc {r['concretised']} {'TRUNC' if r['truncated'] else ''}",
                      flush=True)

    def _domain(self, h, c, x):
        """divisors, radicands and logarithms of the path: values that satisfy the harness but not those conditions are run
        on the real code, which must then not produce something undefined where the reference is defined"""
        weak = {i: w for i, w, d in c.doms}
        base = [weak.get(i, a) for i, a in enumerate(c.assume)]
        base = [a for a in base if a is not None]
        t0 = time.time()
        vals = []
        left = [d for i, w, d in c.doms if not z3.is_true(z3.simplify(d))]
        every = bool(os.environ.get('VERIF_DOMAIN'))
        for k in range(len(left) if every else 3):
            if not left:
                break
            s = z3.Solver()
            s.set('timeout', 2000)
            for a in base:
                s.add(a)
            s.add(z3.Not(z3.And(*left)) if not every else z3.Not(left.pop()))
            r = s.check()
            x.note_query(1, 0)
            if every and r != z3.sat:
                continue
            if r != z3.sat:
                x.domain_unknown += r == z3.unknown
                break
            m = s.model()
            try:
                vals.append(h._values(m, c))
            except Unsupported:
                pass
            left = [d for d in left if z3.is_true(m.eval(d, model_completion=True))]
        x.domain_time += time.time() - t0
        x.solver_time += time.time() - t0
        for v in vals:
            r = self._run_conc(h.name, v)
            if r[0] == 'fail':
                self._confirm(h.name, v, r[1])
                return

    def _probe(self, h, c):
        """the solver could not decide an obligation of this path: models of those constraints of the path that only
        concern inputs are run on the real code; a failing run is a counterexample, a passing one decides nothing"""
        ins = {str(v) for v in c.syms.values()}
        base = [a for a in c.assume if _names(a) <= ins]
        for k in range(8):
            rnd = random.Random(self.seed*100 + k)
            s = z3.Solver()
            s.set('timeout', 2000)
            s.add(*base)
            if s.check() != z3.sat:
                return
            for v in c.syms.values():
                if not z3.is_real(v):
                    continue
                m = s.model()
                x = rnd.choice([0, rnd.uniform(-3, 3), rnd.uniform(0, 30), rnd.uniform(0, 1), None])
                lo, hi = c.bounds.get(str(v), (None, None))
                if lo is not None and hi is not None and not is_sym(lo) and not is_sym(hi) and k % 2:
                    x = float(lo) + (float(hi) - float(lo))*rnd.uniform(0.05, 0.95)
                if x is None:
                    continue
                s.push()
                s.add(v == rv(Fraction(x).limit_denominator(1000)))
                if s.check() != z3.sat:
                    s.pop()
                    if s.check() != z3.sat:
                        return
            try:
                vals = h._values(s.model(), c)
            except (Unsupported, z3.Z3Exception):
                continue
            r = self._run_conc(h.name, vals)
            if r[0] == 'fail':
                self._confirm(h.name, vals, r[1])
                return

    def validated_for(self, name):
        return self._val.get(name, 0) if hasattr(self, '_val') else 0

    def _twin_unknown(self, c):
        for tac in ('qfnra-nlsat',):
            try:
                s = z3.Tactic(tac).solver()
                s.set('timeout', 10000)
                for a in c.assume:
                    s.add(a)
                if s.check() == z3.sat:
                    return True
            except z3.Z3Exception:
                pass
        return False

    def _validate(self, h, c, model, retry=None):
        """translator validation: push a concrete model of this path through the unpatched code"""
        if not hasattr(self, '_val'):
            self._val = {}
        self._val[h.name] = self._val.get(h.name, 0) + 1
        try:
            # a nicer, non-degenerate model when there is one
            vals = retry
            for extra in h._nice(c, None) if retry is None else ():
                s = z3.Solver()
                s.set('timeout', 3000)
                for a in c.assume:
                    s.add(a)
                for e in extra:
                    s.add(e)
                if s.check() == z3.sat:
                    vals = h._values(s.model(), c)
                    break
            if vals is None:
                vals = h._values(model, c)
        except Unsupported:
            return
        r = self._run_conc(h.name, vals)
        if r[0] == 'pass':
            self.validated += 1
            if len(self.samples) < 6:
                self.samples.append({'harness': h.name, 'concrete_run': {k: _js(v) for k, v in list(vals.items())[:12]},
                                     'obligations_passed_on_real_code': r[1]})
        elif r[0] == 'fail' and all('nan' in str(f[1:]) for f in r[1]) and not retry:
            # 0/0 in a removable singularity (norm of a zero velocity): decide on a generic state of the same path
            v2 = h._generic(c)
            if v2 is not None:
                self._validate(h, c, model, retry=v2)
        elif r[0] == 'fail':
            # the solver has not refuted it but the real code does: either rounding or a model error
            self.notes.append(f'{h.name}: concrete validation disagrees: {r[1][:2]}')
            self.validation_fail(h.name, vals, r[1])
        elif r[0] == 'error':
            self.notes.append(f'{h.name}: concrete validation raised {r[1]}')

    def validation_fail(self, name, vals, failed):
        if not any(u['harness'] == name for u in self.unconfirmed):
            self._confirm(name, vals, failed)

    def _run_conc(self, name, vals):
        with unpatched():
            return self._run_conc1(name, vals)

    def _run_conc1(self, name, vals):
        hc = ConcH(name, vals)
        try:
            self.registry[name](hc)
        except PreconditionFailed:
            if hc.failed:       # an obligation stated before the assumption that does not hold
                return ('fail', hc.failed)
            return ('pre', None)
        except Stop:
            pass
        except Exception as e:
            return ('error', f'{type(e).__name__}: {e}', e, traceback.format_exc())
        if hc.failed:
            return ('fail', hc.failed)
        return ('pass', hc.passed)

    def _raised(self, h, c, e, raises_ok):
        if raises_ok and isinstance(e, raises_ok):
            return
        s = z3.Solver()
        s.set('timeout', 5000)
        for a in c.assume:
            s.add(a)
        tb = traceback.format_exc()
        if os.environ.get('VERIF_DEBUG'):
            print(tb, flush=True)
        vals = None
        for extra in h._nice(c, None) + [[]]:
            s.push()
            for e2 in extra:
                s.add(e2)
            if s.check() == z3.sat:
                vals = h._values(s.model(), c)
                s.pop()
                break
            s.pop()
        if vals is None:
            self.errors.append((h.name, f'{type(e).__name__}: {e}', tb))
            return
        r = self._run_conc(h.name, vals)
        if r[0] == 'error' and type(r[2]) is type(e) and isinstance(e, EXC_VIOLATION) and _in_repo(r[2]):
            # the real code raises on this input as well
            self._confirm(h.name, vals, [('no-exception', r[1])], tb=r[3])
        elif r[0] == 'fail':
            self._confirm(h.name, vals, r[1])
        else:
            self.errors.append((h.name, f'{type(e).__name__}: {e}', tb))

    def counterexample(self, h, oname, models):
        for vals in models:
            saved = core._CTX
            core._CTX = None
            try:
                r = self._run_conc(h.name, vals)
            finally:
                core._CTX = saved
            if r[0] == 'fail':
                self._confirm(h.name, vals, r[1])
                if not os.environ.get('VERIF_ALL'):
                    raise Stop()
                return
            if r[0] == 'error' and isinstance(r[2], EXC_VIOLATION) and _in_repo(r[2]):
                self._confirm(h.name, vals, [('no-exception', r[1])], tb=r[3])
                if not os.environ.get('VERIF_ALL'):
                    raise Stop()
                return
        self.unconfirmed.append({'harness': h.name, 'obligation': oname,
                                 'values': {k: _js(v) for k, v in (models[-1] if models else {}).items()}})
        if os.environ.get('VERIF_DEBUG'):
            print('UNCONFIRMED', self.unconfirmed[-1], [self._run_conc(h.name, v)[:2] for v in models][:3])

    def _confirm(self, name, vals, failed, tb=None):
        for k in self.known_list:
            if k['harness'] == name and all(any(f[0].startswith(o) for o in k['obligations']) for f in failed):
                if k not in self.known_hit:
                    self.known_hit.append(k)
                return
        v = {'property': self.pid, 'harness': name, 'failed': [[str(a), str(b)] for a, b in failed],
             'values': {k: _js(v) for k, v in vals.items()}}
        if tb:
            v['traceback'] = tb
        self.violations.append(v)

    # -----------------------------------------------------------------------------------------------------------
    def finish(self):
        if self.replay_file:
            return self._replay()
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        cov = {
            'states': self.paths,
            'transitions': self.branches + self.obligations,
            'traces_validated_against_impl': self.validated,
            'samples': self.samples or [{'obligations': [f'{a}:{b}' for a, b in list(self.obl_names)[:8]]}],
            'explanation': 'states = symbolic paths of the harnesses through the real code; transitions = symbolic branch'
                           ' points resolved by the solver plus solver-decided obligations; traces_validated = models'
                           ' of explored paths executed on the unpatched code with every obligation evaluated.',
            'obligations_total': self.obligations, 'obligations_discharged_unsat': self.discharged,
            'solver_queries': self.queries, 'solver_time_s': round(self.solver_time, 2),
            'solver': 'z3 ' + z3.get_version_string(),
            'functions_encoded': self.functions, 'bounds': self.bounds,
            'harnesses': self.harnesses,
            'inconclusive': [list(i) for i in self.inconclusive],
            'slow_obligations': [list(i) for i in self.slow[:20]],
            'concretised_values': self.concretised,
            'notes': self.notes,
            'known_findings_seen': [k['what'] for k in self.known_hit],
        }
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2),
              'violations': len(self.violations)}
        with open(os.path.join(VERIF, 'evidence', f'{self.pid}.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for k in self.known_hit:
            print(f'KNOWN-FINDING: property={self.pid} {k["what"]}')
        print(f'{self.pid} [{self.tier}] harnesses={len(self.harnesses)} paths={self.paths} obligations={self.obligations}'
              f' discharged={self.discharged} queries={self.queries} solver={self.solver_time:.1f}s'
              f' validated={self.validated} wall={time.time()-self.t0:.1f}s')
        if self.violations:
            rd = os.path.join(VERIF, 'replays')
            os.makedirs(rd, exist_ok=True)
            p = os.path.join(rd, f'{self.pid}.json')
            with open(p, 'w') as f:
                json.dump(self.violations[0], f, indent=1)
            v = self.violations[0]
            print(f'  counterexample in {v["harness"]}: {v["failed"][:3]}')
            print('  values: ' + ', '.join(f'{k}={x}' for k, x in list(v['values'].items())[:24]))
            print(f'  re-run: bash {VERIF}/run.sh {self.pid} --replay {p}')
            print(f'VIOLATION property={self.pid} replay={p}', flush=True)
            self._exit(1)
        bad = False
        for n, a, b in self.vacuous:
            print(f'ERROR vacuous harness {n}: {a} paths with obligations, expected {b}')
            bad = True
        for i, (n, e, tb) in enumerate(self.errors[:5]):
            print(f'ERROR {n}: {e}' + (chr(10) + tb if i == 0 else ''))
            bad = True
        for u in self.unconfirmed[:5]:
            print(f'ERROR counterexample does not reproduce on the real code: {u}')
            bad = True
        for n, o in self.inconclusive[:10]:
            print(f'ERROR inconclusive (solver unknown): {n}: {o}')
            bad = True
        if not self.harnesses or self.obligations == 0:
            print('ERROR nothing was checked')
            bad = True
        self._exit(2 if bad else 0)

    def _exit(self, code):
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(code)

    def _replay(self):
        v = json.load(open(self.replay_file))
        vals = {k: (Fraction(x) if isinstance(x, str) else x) for k, x in v['values'].items()}
        r = self._run_conc(v['harness'], vals)
        print('replay:', r[0], r[1])
        if r[0] == 'error':
            print(r[3])
        self._exit(1 if r[0] in ('fail', 'error') else 0)


def _js(v):
    if isinstance(v, bool):
        return v
    if isinstance(v, Fraction):
        return str(v)
    return v


@contextlib.contextmanager
def patched(*triples):
    """temporarily set attributes: (obj, name, value)"""
    missing = object()
    saved = []

    def on():
        for obj, name, val in triples:
            d = obj.__dict__ if hasattr(obj, '__dict__') else {}
            saved.append((obj, name, d.get(name, missing)))
            setattr(obj, name, val)

    def off():
        for obj, name, val in reversed(saved):
            if val is missing:
                delattr(obj, name)
            else:
                setattr(obj, name, val)
        saved.clear()
    _ACTIVE.append((on, off))
    try:
        on()
        yield
    finally:
        off()
        _ACTIVE.remove((on, off))


_ACTIVE = []


@contextlib.contextmanager
def unpatched():
    """replay inside a patched region: the real code, with every patch taken out"""
    act = list(_ACTIVE)
    _ACTIVE.clear()
    for on, off in reversed(act):
        off()
    try:
        yield
    finally:
        for on, off in act:
            on()
        _ACTIVE[:] = act
