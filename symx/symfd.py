"""Firedrake state machine on spatially uniform symbolic fields.

``SymFD(h)`` runs real time stepping code (assign / interpolate / project / solve / assemble / Constant.assign) on states
whose components are symbolic numbers.  A variational solve becomes: new unknowns constrained by the real residual form,
tested with every unit vector.  Only cell integrals are evaluated: the states are spatially uniform (gradients zero unless
given), so facet terms do not enter (their consistency is the subject of other checks).  In concrete mode the same harness
runs unpatched Firedrake on a real mesh with uniform fields.
"""
import contextlib
from fractions import Fraction
import numpy as np
import ufl
import firedrake as fd
from . import core
from .core import SymReal, is_sym, Unsupported, raw, rv, z3, frac
from .ufleval import Evaluator
from .harness import patched


class SymMat:
    def __init__(self, form):
        self.form = form


class _Snap:
    pass


class SymFD:
    def __init__(self, h, modules=(), affine=True, extra=()):
        self.h = h
        self.numeric = True
        self.sym = h.symbolic
        self.modules = modules
        self.store = {}
        self.grads = {}
        self.keep = []
        self.consts = {}
        self.n = 0
        self.affine = affine
        self.log = []
        self.extra = extra
        self.on_solve = None
        self.x = None
        self.measure = None      # (symbolic) cell area relative to the reference mesh

    # ---- storage ----------------------------------------------------------------------------------------------
    def parts(self, f):
        """list of (key, size) of the sub-functions of f"""
        V = f.function_space()
        if len(V) > 1:
            subs = f.subfunctions
            self.keep.append(subs)
            return [(self._key(s), self._size(s)) for s in subs]
        return [(self._key(f), self._size(f))]

    def _key(self, f):
        d = f.dat
        self.keep.append(d)
        # sub-functions of one Function share its dat
        return id(d)

    def _size(self, f):
        return int(np.prod(f.ufl_shape)) if f.ufl_shape else 1

    def size(self, f):
        return sum(n for _, n in self.parts(f))

    def get(self, f):
        if isinstance(f, fd.Constant):
            if id(f) in self.consts:
                v = self.consts[id(f)][1]
                return v if isinstance(v, list) else [v]
            return [frac(float(q)) if self.sym else float(q) for q in np.ravel(f.dat.data_ro if hasattr(f, 'dat') else f.values())]
        if not self.sym:
            out = []
            for s in f.subfunctions:
                a = s.dat.data_ro
                a = a.reshape(a.shape[0], -1)
                out += [float(q) for q in a[0]]
            return out
        out = []
        for k, n in self.parts(f):
            if k not in self.store:
                self.store[k] = self._initial(f, k, n)
            out += self.store[k]
        return out

    def _initial(self, f, k, n):
        for s in f.subfunctions:
            if self._key(s) == k:
                a = s.dat.data_ro
                a = a.reshape(a.shape[0], -1)
                if a.size and np.allclose(a, a[0]):
                    return [frac(float(q)) for q in a[0]]
                if not a.size:
                    return [Fraction(0)]*n
                raise Unsupported(f'{f.name()} is not uniform')
        raise Unsupported('no data')

    def set(self, f, vals, grad=None):
        vals = list(vals) if isinstance(vals, (list, tuple, np.ndarray)) else [vals]
        if isinstance(f, fd.Constant):
            if self.sym:
                self.keep.append(f)
                self.consts[id(f)] = (f, vals if f.ufl_shape else vals[0])
            else:
                f.assign(np.array([float(v) for v in vals]) if f.ufl_shape else float(vals[0]))
            return
        if not self.sym:
            o = 0
            for s in f.subfunctions:
                n = self._size(s)
                a = s.dat.data.reshape(s.dat.data.shape[0], -1)
                for c in range(n):
                    a[:, c] = float(vals[o + c])
                s.dat.data[:] = a.reshape(s.dat.data.shape)
                o += n
            return
        self.log.append(('set', f.name()))
        o = 0
        for k, n in self.parts(f):
            self.store[k] = list(vals[o:o+n])
            self.grads.pop(k, None)
            o += n
        if not any(is_sym(v) for v in vals):
            # keep the real data in step where the values are plain numbers
            o = 0
            for s in f.subfunctions:
                n = self._size(s)
                a = s.dat.data
                b = a.reshape(a.shape[0], -1)
                if b.shape[1] == n:
                    b[:, :] = [float(v) for v in vals[o:o+n]]
                o += n

    def setgrad(self, f, g):
        """prescribe a uniform gradient of a coefficient; the stored value is the one at the midpoint of cell 0"""
        if not self.sym:
            m = f.function_space().mesh()
            x, xc = fd.SpatialCoordinate(m), self.midpoint(m)
            v = self.get(f)
            g = np.asarray(g, dtype=float).reshape(len(v), -1)
            ex = [v[i] + sum(float(g[i][j])*(x[j] - xc[j]) for j in range(len(xc))) for i in range(len(v))]
            f.interpolate(fd.as_vector(ex) if f.ufl_shape else ex[0])
            return
        self.grads[self._key(f)] = np.asarray(g, dtype=object).reshape(self._size(f), -1)

    def symbolic(self, f, name, **kw):
        n = 1 if isinstance(f, fd.Constant) and not f.ufl_shape else (
            int(np.prod(f.ufl_shape)) if isinstance(f, fd.Constant) else self.size(f))
        v = [self.h.real(f'{name}{i}' if n > 1 else name, **kw) for i in range(n)]
        self.set(f, v)
        return v if n > 1 else v[0]

    # ---- evaluation -------------------------------------------------------------------------------------------
    def terminal(self, f, comp, side, derivs):
        U = ufl.classes
        if isinstance(f, fd.Constant):
            if derivs:
                return Fraction(0)
            if id(f) in self.consts:
                v = self.consts[id(f)][1]
                return v[int(np.ravel_multi_index(comp, f.ufl_shape))] if f.ufl_shape else v
            a = f.values().reshape(f.ufl_shape) if f.ufl_shape else f.values()
            return frac(float(a[comp] if f.ufl_shape else a[0]))
        if isinstance(f, (ufl.Coefficient, fd.Cofunction)):
            c = int(np.ravel_multi_index(comp, f.ufl_shape)) if f.ufl_shape else 0
            if not derivs:
                return self.get(f)[c]
            if len(derivs) == 1:
                for k, n in self.parts(f):
                    if c < n:
                        return self.grads[k][c][derivs[0]] if k in self.grads else Fraction(0)
                    c -= n
            return Fraction(0)
        if isinstance(f, ufl.SpatialCoordinate):
            if derivs:
                return Fraction(int(len(derivs) == 1 and derivs[0] == comp[0]))
            if self.x is None:
                raise Unsupported('position')
            return self.x[comp[0]]
        if isinstance(f, U.GeometricQuantity):
            if derivs:
                return Fraction(0)
            raise Unsupported(type(f).__name__)
        raise Unsupported(f'terminal {type(f).__name__}')

    def ev(self, expr, comp=()):
        return Evaluator(self)(expr, comp)

    def midpoint(self, m):
        V = fd.VectorFunctionSpace(m, 'DG', 0)
        return [float(q) for q in fd.Function(V).interpolate(fd.SpatialCoordinate(m)).dat.data_ro[0]]

    def val(self, expr, mesh):
        """value of a scalar expression (midpoint of cell 0)"""
        if isinstance(expr, (int, float, Fraction)) or is_sym(expr):
            return expr
        if self.sym:
            return self.ev(expr)
        return float(fd.Function(fd.FunctionSpace(mesh, 'DG', 0)).interpolate(expr).dat.data_ro[0])

    def vec(self, expr):
        """flattened components of an expression"""
        if isinstance(expr, (int, float, Fraction)) or is_sym(expr):
            return [expr]
        if isinstance(expr, (list, tuple, np.ndarray)):
            return [q for e in expr for q in self.vec(e)]
        expr = ufl.as_ufl(expr)
        t = Evaluator(self).tensor(expr)
        return [t] if not expr.ufl_shape else list(t.ravel())

    def form(self, F, subs=None):
        """sum of the cell integrands (per unit area)"""
        s = Fraction(0)
        if F is None or isinstance(F, (int, float)):
            return s
        if hasattr(F, 'components') and not hasattr(F, 'integrals'):
            for w, c in zip(F.weights(), F.components()):
                s = s + self._num(w)*self.form(c, subs)
            return s
        for it in F.integrals():
            if it.integral_type() != 'cell':
                continue
            g = it.integrand()
            if subs:
                g = ufl.replace(g, subs)
            v = Evaluator(self)(g)
            s = s + (v if self.measure is None else v*self.measure)
        return s

    def stretch(self, mesh, j):
        """change the geometry: cell areas become j times those of the mesh as it was built"""
        if self.sym:
            self.measure = j
            return
        c = mesh.coordinates
        if not hasattr(mesh, '_verif_xy'):
            mesh._verif_xy = c.dat.data_ro.copy()
        c.dat.data[:] = mesh._verif_xy*float(j)**0.5

    def _num(self, w):
        return frac(float(w)) if not isinstance(w, ufl.core.expr.Expr) else self.ev(w)

    def unit(self, arg, i):
        n = int(np.prod(arg.ufl_shape)) if arg.ufl_shape else 1
        if not arg.ufl_shape:
            return ufl.as_ufl(1)
        return ufl.as_tensor(np.array([ufl.as_ufl(1 if j == i else 0) for j in range(n)], dtype=object)
                             .reshape(arg.ufl_shape).tolist())

    def linform(self, L):
        """components of a 1-form"""
        if isinstance(L, fd.Cofunction):
            return self.get(L)
        if isinstance(L, (int, float)):
            return None
        if hasattr(L, 'weights') and hasattr(L, 'components'):
            out = None
            for w, c in zip(L.weights(), L.components()):
                v = [self._num(w)*q for q in self.linform(c)]
                out = v if out is None else [a + b for a, b in zip(out, v)]
            return out
        args = [a for a in L.arguments() if a.number() == 0]
        n = int(np.prod(args[0].ufl_shape)) if args[0].ufl_shape else 1
        return [self.form(L, {args[0]: self.unit(args[0], i)}) for i in range(n)]

    def solve(self, F, u):
        """u <- solution of F(u; e_i) = 0"""
        self.n += 1
        n = self.size(u)
        args = [a for a in F.arguments() if a.number() == 0]
        t = args[0]
        units = [self.unit(t, i) for i in range(n)]
        # affine residual with a unit (or constant) mass matrix: solve in closed form
        zero = [Fraction(0)]*n
        self.set(u, zero)
        r0 = [self.form(F, {t: e}) for e in units]
        if self.affine == 'full':
            sol = self._affine(F, u, t, units, n, r0)
            if sol is not None:
                self.set(u, sol)
                if self.on_solve:
                    self.on_solve(F, u, sol)
                return
        x = [SymReal(z3.Real(f'sol{self.n}_{i}')) for i in range(n)]
        self.set(u, x)
        r = [self.form(F, {t: e}) for e in units]
        sol = list(x)
        for i in range(n):
            # diagonal affine?  d r_i / d x_i constant and no other unknowns
            a = self._slope(r[i], r0[i], x, i)
            if a is not None and self.affine:
                sol[i] = -r0[i]/a
        if any(s is q for s, q in zip(sol, x)):
            # keep the unknowns that are not solved in closed form
            sub = {q: s for q, s in zip(x, sol) if s is not q}
            for i in range(n):
                if sol[i] is x[i]:
                    self.h.c.syms.setdefault(f'sol{self.n}_{i}', x[i].e)
            pairs = [(q.e, raw(s)) for q, s in sub.items()]
            for i in range(n):
                if sol[i] is x[i]:
                    e = raw(r[i])
                    e = z3.substitute(e, *pairs) if pairs else e
                    self.h.c.add(e == 0)
        self.set(u, sol)
        if self.on_solve:
            self.on_solve(F, u, sol)

    def _affine(self, F, u, t, units, n, r0):
        """exact solution of an affine system with symbolic coefficients (regular matrix assumed), None if not affine"""
        A = []
        for j in range(n):
            self.set(u, [Fraction(int(i == j)) for i in range(n)])
            r = [self.form(F, {t: e}) for e in units]
            A.append([p - q for p, q in zip(r, r0)])
        A = [[A[j][i] for j in range(n)] for i in range(n)]
        x = [SymReal(z3.Real(f'sol{self.n}_{i}')) for i in range(n)]
        self.set(u, x)
        r = [self.form(F, {t: e}) for e in units]
        for i in range(n):
            d = r[i] - r0[i] - sum((A[i][j]*x[j] for j in range(n)), Fraction(0))
            if not core.is_zero(d):
                return None
        z = lambda q: core.is_zero(q)
        b = [-q for q in r0]
        # Gaussian elimination without division where rows decouple
        rows = [list(A[i]) + [b[i]] for i in range(n)]
        sol = [None]*n
        for c in range(n):
            piv = next((r for r in range(c, n) if not z(rows[r][c])), None)
            if piv is None:
                raise Unsupported('singular system')
            rows[c], rows[piv] = rows[piv], rows[c]
            for r in range(c + 1, n):
                if not z(rows[r][c]):
                    m = rows[r][c]
                    rows[r] = [rows[c][c]*p - m*q for p, q in zip(rows[r], rows[c])]
        for c in range(n - 1, -1, -1):
            v = rows[c][n]
            for k in range(c + 1, n):
                if not z(rows[c][k]):
                    v = v - rows[c][k]*sol[k]
            sol[c] = v/rows[c][c]
        return sol

    def cut(self, f, name):
        """forget how the value of f came about: the same term is replaced by a fresh symbol in every stored value"""
        v = self.get(f)
        if not self.sym:
            return v
        new = []
        for i, q in enumerate(v):
            if not is_sym(q):
                new.append(q)
                continue
            s = self.h.real(f'{name}{i}')
            for k, vals in self.store.items():
                self.store[k] = [s if is_sym(o) and (o.e.eq(q.e) or core.is_zero(o - q)) else o for o in vals]
            self.h.c.hints = getattr(self.h.c, 'hints', []) + [s.e == q.e]
            new.append(s)
        return new

    def _slope(self, r, r0, x, i):
        if not is_sym(r):
            return None
        e = r.e
        names = _vars(e)
        if any(q.e.get_id() in names for j, q in enumerate(x) if j != i):
            return None
        if x[i].e.get_id() not in names:
            return None
        # affine iff r(x) - r0 - x*(r(1)-r0) vanishes identically (numerically cheap test through z3 simplify)
        r1 = SymReal(z3.simplify(z3.substitute(e, (x[i].e, z3.RealVal(1)))))
        a = r1 - r0
        ae = z3.simplify(raw(a), som=True)
        if not z3.is_rational_value(ae):
            return None
        if ae.as_fraction() == 0:
            return None
        d = z3.simplify(raw(r - r0) - ae*x[i].e, som=True)
        if not (z3.is_rational_value(d) and d.as_fraction() == 0):
            return None
        return Fraction(ae.numerator_as_long(), ae.denominator_as_long())

    # ---- patches ----------------------------------------------------------------------------------------------
    def constant_factory(self, orig):
        S = self

        class C(orig):
            def __new__(cls, value=0.0, *a, **kw):
                return super().__new__(cls)

            def __init__(self, value=0.0, *a, **kw):
                if is_sym(value):
                    super().__init__(0.0, *a, **kw)
                    S.set(self, [value])
                else:
                    super().__init__(value, *a, **kw)
        return C

    def __enter__(self):
        if not self.sym:
            return self
        S = self

        def assign(self, expr, subset=None, **kw):
            if isinstance(self, fd.Function) and isinstance(expr, fd.Function) and len(self.function_space()) == len(
                    expr.function_space()):
                S.set(self, S.get(expr))
                for (a, _), (b, _) in zip(S.parts(self), S.parts(expr)):
                    if b in S.grads:
                        S.grads[a] = S.grads[b]
                return self
            if isinstance(expr, (int, float)) or is_sym(expr):
                S.set(self, [expr]*S.size(self))
                return self
            S.set(self, S.vec(expr))
            return self

        def interp(self, expr, *a, **kw):
            g = None
            if is_sym(expr) or isinstance(expr, (int, float)):
                v = [expr]*S.size(self)
            else:
                v = S.vec(expr)
                if S.grads and len(self.function_space()) == 1 and _deg(self) > 0:
                    e = ufl.as_ufl(expr)
                    g = Evaluator(S).tensor(ufl.grad(e)) if e.ufl_domains() and ufl.domain.extract_unique_domain(e) is not None else None
            S.set(self, v)
            if g is not None:
                S.setgrad(self, g)
            return self

        def iadd(self, expr):
            v = S.vec(expr) if not isinstance(expr, fd.Cofunction) else S.get(expr)
            o = S.get(self)
            S.set(self, [a + b for a, b in zip(o, v if len(v) == len(o) else v*len(o))])
            return self

        def isub(self, expr):
            v = S.vec(expr)
            o = S.get(self)
            S.set(self, [a - b for a, b in zip(o, v if len(v) == len(o) else v*len(o))])
            return self

        def imul(self, expr):
            v = S.vec(expr)
            o = S.get(self)
            S.set(self, [a*b for a, b in zip(o, v if len(v) == len(o) else v*len(o))])
            return self

        def copy(self, deepcopy=False):
            g = fd.Function(self.function_space(), name=self.name())
            S.set(g, S.get(self))
            return g

        def coassign(self, expr, subset=None, **kw):
            if isinstance(expr, (int, float)):
                S.set(self, [Fraction(expr)]*S.size(self))
            else:
                S.set(self, S.linform(expr))
            return self

        def coiadd(self, expr):
            v = S.linform(expr)
            S.set(self, [a + b for a, b in zip(S.get(self), v)])
            return self

        def cassign(self, v):
            if isinstance(v, fd.Constant):
                v = S.get(v)
            elif isinstance(v, ufl.core.expr.Expr):
                v = S.vec(v)
            S.set(self, v if isinstance(v, (list, tuple, np.ndarray)) else [v])
            return self

        def sinit(self, problem, *a, **kw):
            self._vproblem = problem

        def solve(self, bounds=None):
            p = self._vproblem
            S.log.append(('solve', p.u.name()))
            S.solve(p.F, p.u)

        def assemble(form, *a, tensor=None, **kw):
            if isinstance(form, fd.Cofunction):
                return form
            args = form.arguments() if hasattr(form, 'arguments') else ()
            if len(args) == 2:
                if tensor is not None:
                    tensor.form = form
                    return tensor
                return SymMat(form)
            if len(args) == 1:
                v = S.linform(form)
                if tensor is None:
                    tensor = fd.Cofunction(args[0].function_space().dual())
                S.set(tensor, v)
                return tensor
            return S.form(form)

        class LS:
            def __init__(self, A, **kw):
                self.A = A

            def solve(self, x, b):
                S.log.append(('solve', x.name()))
                n = S.size(x)
                tr = [a for a in self.A.form.arguments() if a.number() == 1][0]
                F = ufl.replace(self.A.form, {tr: x})
                t = [a for a in F.arguments() if a.number() == 0][0]
                bb = S.get(b)
                # mass matrices of uniform fields are diagonal
                xs = []
                for i in range(n):
                    S.set(x, [Fraction(int(j == i)) for j in range(n)])
                    col = [S.form(F, {t: S.unit(t, k)}) for k in range(n)]
                    for k in range(n):
                        if k != i and not (not is_sym(col[k]) and col[k] == 0):
                            raise Unsupported('non-diagonal mass matrix')
                    xs.append(bb[i]/col[i])
                S.set(x, xs)
        F = fd.Function
        V = fd.variational_solver
        tri = [(F, 'assign', assign), (F, 'interpolate', interp), (F, 'project', interp), (F, '__iadd__', iadd),
               (F, '__isub__', isub), (F, '__imul__', imul), (F, 'copy', copy),
               (fd.Cofunction, 'assign', coassign), (fd.Cofunction, '__iadd__', coiadd),
               (fd.Constant, 'assign', cassign),
               (V.NonlinearVariationalSolver, '__init__', sinit), (V.NonlinearVariationalSolver, 'solve', solve),
               (V.LinearVariationalSolver, '__init__', sinit), (V.LinearVariationalSolver, 'solve', solve)]
        for m in self.modules:
            if hasattr(m, 'assemble'):
                tri.append((m, 'assemble', assemble))
            if hasattr(m, 'LinearSolver'):
                tri.append((m, 'LinearSolver', LS))
            if hasattr(m, 'Constant'):
                tri.append((m, 'Constant', self.constant_factory(fd.Constant)))
        tri += list(self.extra)
        self._p = patched(*tri)
        self._p.__enter__()
        self._assemble = assemble
        return self

    def __exit__(self, *a):
        if self.sym:
            return self._p.__exit__(*a)


def _deg(f):
    from .point import edeg
    return edeg(f.function_space())[1]


def _vars(e):
    seen, out, st = set(), set(), [e]
    while st:
        q = st.pop()
        if q.get_id() in seen:
            continue
        seen.add(q.get_id())
        if z3.is_const(q) and q.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(q.get_id())
        st.extend(q.children())
    return out
