"""Point-wise symbolic evaluation of the variational forms that the real code builds.

``Point(h, mesh, kind)`` stands for ONE integration point of type ``kind`` ('dx', 'dS', 'ds', 'dS_v', 'dS_h', 'ds_v',
'ds_t', 'ds_b').  In symbolic mode every coefficient is an arbitrary value/gradient at that point (on both sides of an
interior facet, subject to the continuity of its element), the facet normal an arbitrary unit vector.  In concrete
mode the same quantities are realised on a real two-cell mesh and the unpatched form is assembled by Firedrake with a
one-point quadrature rule.
"""
from fractions import Fraction
import numpy as np
import ufl
import firedrake as fd
from ufl.algorithms.apply_algebra_lowering import apply_algebra_lowering
from ufl.algorithms.apply_derivatives import apply_derivatives
from . import core
from .core import SymReal, is_sym, Unsupported, raw, rv, z3
from .ufleval import Evaluator
from .harness import PreconditionFailed

ITYPE = {'dx': 'cell', 'dS': 'interior_facet', 'ds': 'exterior_facet', 'dS_v': 'interior_facet_vert',
         'dS_h': 'interior_facet_horiz', 'ds_v': 'exterior_facet_vert', 'ds_t': 'exterior_facet_top',
         'ds_b': 'exterior_facet_bottom'}
FLIP = {'+': '-', '-': '+', None: None}
MEAS = {k: getattr(fd, k) for k in ITYPE}


def edeg(V):
    e = V.ufl_element()
    try:
        d = e.degree()
    except TypeError:
        d = e.embedded_superdegree
    if isinstance(d, (tuple, list)):
        return max(d), sum(d)
    return d, d


class Info:
    def __init__(self, f, name, interior, kind, override):
        V = f.function_space()
        self.f, self.name = f, name
        self.shape = f.ufl_shape
        self.size = int(np.prod(self.shape)) if self.shape else 1
        self.deg, self.totdeg = edeg(V)
        el = V.ufl_element()
        self.cont = override.get('continuous')
        if self.cont is None:
            try:
                if el in ufl.H1:
                    self.cont = 'h1'
                elif el in ufl.HDiv:
                    self.cont = 'hdiv'
                else:
                    self.cont = 'l2'
            except Exception:
                self.cont = 'l2'
        if el.family() == 'Real':
            self.cont = 'const'
            self.deg = self.totdeg = 0
        self.zero_z = override.get('zero_z', False)
        self.side_only = None
        self.vals = {}
        self.grads = {}
        self.hess = {}
        self.over = override


class Point:
    def __init__(self, h, mesh, kind, subdomain=None, name='p', **kw):
        self.h, self.mesh, self.kind, self.subdomain = h, mesh, kind, subdomain
        self.interior = kind.startswith('dS')
        self.facet = kind != 'dx'
        self.sides = ('+', '-') if self.interior else (None,)
        self.dim = mesh.geometric_dimension if isinstance(mesh.geometric_dimension, int) else mesh.geometric_dimension()
        self.infos = {}
        self.names = {}
        self.consts = {}
        self.geo = {}
        self.saved_consts = []
        self.prefix = name
        self.sym = h.symbolic
        self.nz_sign = None
        self._placed = False
        self.ev = Evaluator(self) if self.sym else None
        self.x = [self.h.real(f'{name}.x{i}', lo=-1000, hi=1000) for i in range(self.dim)]
        if self.facet:
            self._normal(kw)

    # -- geometry ---------------------------------------------------------------------------------------------
    def _normal(self, kw):
        h, d = self.h, self.dim
        if d == 2:
            n = [h.real('n0', lo=-1, hi=1), h.real('n1', lo=-1, hi=1)]
        elif self.kind in ('dS_v', 'ds_v'):
            n = [h.real('n0', lo=-1, hi=1), h.real('n1', lo=-1, hi=1), 0]
        else:
            n = [h.real(f'n{i}', lo=-1, hi=1) for i in range(3)]
            s = self.orientation()
            if self.sym:
                h.assume(n[2]*s > 0)
        if self.sym:
            t = 0
            for c in n:
                t = t + c*c
            h.assume_eq(t, 1)
        else:
            nn = np.array([float(c) for c in n])
            L = np.linalg.norm(nn)
            if abs(L - 1) > 1e-6:
                if L < 1e-12:
                    nn = np.zeros(d)
                    nn[-1 if d == 3 and self.kind not in ('dS_v', 'ds_v') else 0] = \
                        self.orientation() if d == 3 and self.kind not in ('dS_v', 'ds_v') else 1.0
                    L = 1.0
                else:
                    raise PreconditionFailed()
            n = list(nn/L)
        self.n = n

    def orientation(self):
        if self.kind == 'ds_t':
            return 1
        if self.kind == 'ds_b':
            return -1
        # interior horizontal facet: which way does n('+') point in Firedrake?
        key = 'dS_h'
        if key not in _ORIENT:
            m = fd.ExtrudedMesh(fd.UnitTriangleMesh(), 2)
            n = fd.FacetNormal(m)
            _ORIENT[key] = 1 if fd.assemble(n('+')[2]*fd.dS_h(domain=m)) > 0 else -1
        return _ORIENT[key]

    # -- registration -----------------------------------------------------------------------------------------
    def coeff(self, f, name=None, **override):
        k = f
        if id(k) in self.infos:
            return self.infos[id(k)]
        if name is None:
            name = f.name()
        if name in self.names and self.names[name] is not f:
            raise RuntimeError(f'two coefficients named {name}')
        self.names[name] = f
        info = Info(f, name, self.interior, self.kind, override)
        self.infos[id(k)] = info
        V = f.function_space()
        if len(V) > 1:
            info.subs = [self.coeff(s, f'{name}.{i}', **override) for i, s in enumerate(f.subfunctions)]
        else:
            info.subs = None
        return info

    def swapped(self):
        """the same facet seen with its two cells numbered the other way round"""
        q = Point.__new__(Point)
        q.__dict__.update(self.__dict__)
        q.infos, q.geo, q.saved_consts = {}, {}, []
        q.twin = self
        q.n = [-c for c in self.n]
        q._placed = False
        q.ev = Evaluator(q) if q.sym else None
        for i, (k, info) in enumerate(list(self.infos.items())):
            c = Info(info.f, info.name, q.interior, q.kind, info.over)
            c.subs = info.subs
            q.infos[k] = c
        for c in q.infos.values():
            if c.subs:
                c.subs = [q.infos[id(t.f)] for t in c.subs]
        return q

    twin = None

    def constant(self, c, name, **kw):
        """make a Firedrake Constant an arbitrary number"""
        if c.ufl_shape:
            v = [self.h.real(f'{name}{i}', **kw) for i in range(int(np.prod(c.ufl_shape)))]
        else:
            v = self.h.real(name, **kw)
        self.consts[id(c)] = (c, v)
        if not self.sym:
            self.saved_consts.append((c, c.values().copy()))
            c.assign([float(q) for q in v] if c.ufl_shape else float(v))
        return v

    # -- values -----------------------------------------------------------------------------------------------
    def _real(self, name):
        if not self.sym:        # what the symbolic run never looked at is zero
            return float(self.h._get(name, 0.0))
        return self.h.real(name, lo=-10**6, hi=10**6)

    def value(self, f, side=None, comp=0):
        """value of flattened component ``comp``"""
        if self.twin is not None:
            return self.twin.value(f, FLIP[side], comp)
        info = self.coeff(f)
        if info.subs:
            for s in info.subs:
                if comp < s.size:
                    return self.value(s.f, side, comp)
                comp -= s.size
        side = side if self.interior else None
        if (side, comp) in info.vals:
            return info.vals[(side, comp)]
        nm = f'{info.name}_{comp}'
        if not self.interior:
            v = self._real(nm)
        elif info.cont in ('h1', 'const'):
            v = self._real(nm)
            info.vals[('+', comp)] = info.vals[('-', comp)] = v
        elif info.cont == 'hdiv':
            up = [self._real(f'{info.name}_{c}p') for c in range(info.size)]
            if self.dim == 2 or info.size == 2:
                b = self._real(f'{info.name}_tj')
                t = [-self.n[1], self.n[0]]
                um = [up[c] + b*t[c] for c in range(info.size)]
            else:
                w = [self._real(f'{info.name}_tj{c}') for c in range(3)]
                wn = sum(w[c]*self.n[c] for c in range(3))
                um = [up[c] + w[c] - wn*self.n[c] for c in range(3)]
            for c in range(info.size):
                info.vals[('+', c)] = up[c]
                info.vals[('-', c)] = um[c]
            v = info.vals[(side, comp)]
        else:
            v = self._real(nm + {'+': 'p', '-': 'm'}[side])
        info.vals[(side, comp)] = v
        return v

    def grad(self, f, side, comp, j):
        if self.twin is not None:
            return self.twin.grad(f, FLIP[side], comp, j)
        info = self.coeff(f)
        if info.subs:
            for s in info.subs:
                if comp < s.size:
                    return self.grad(s.f, side, comp, j)
                comp -= s.size
        side = side if self.interior else None
        k = (side, comp, j)
        if k in info.grads:
            return info.grads[k]
        if info.totdeg == 0 or info.cont == 'const':
            v = Fraction(0)
        elif info.zero_z and j == self.dim - 1:
            v = Fraction(0)
        elif not self.interior:
            v = self._real(f'{info.name}_{comp}_d{j}')
        elif info.cont == 'h1' and side == '-':
            jm = info.grads.get(('jmp', comp))
            if jm is None:
                jm = info.grads[('jmp', comp)] = self._real(f'{info.name}_{comp}_gj')
            v = self.grad(f, '+', comp, j) + jm*self.n[j]
        else:
            v = self._real(f'{info.name}_{comp}_d{j}' + {'+': 'p', '-': 'm'}[side])
        info.grads[k] = v
        return v

    def hess(self, f, side, comp, i, j):
        if self.twin is not None:
            return self.twin.hess(f, FLIP[side], comp, i, j)
        info = self.coeff(f)
        if info.subs:
            for s in info.subs:
                if comp < s.size:
                    return self.hess(s.f, side, comp, i, j)
                comp -= s.size
        side = side if self.interior else None
        i, j = sorted((i, j))
        k = (side, comp, i, j)
        if k in info.hess:
            return info.hess[k]
        if info.deg <= 1 and not info.over.get('hess'):
            v = Fraction(0)
        elif info.zero_z and j == self.dim - 1:
            v = Fraction(0)
        else:
            v = self._real(f'{info.name}_{comp}_h{i}{j}' + {'+': 'p', '-': 'm', None: ''}[side])
        info.hess[k] = v
        return v

    def setconst(self, c, v):
        """prescribe the value of a Constant (scalar or flattened list)"""
        if self.sym:
            self.consts[id(c)] = (c, v)
        else:
            self.saved_consts.append((c, c.values().copy() if c.ufl_shape else c.values().copy()))
            c.assign(np.array([float(q) for q in v]).reshape(c.ufl_shape) if c.ufl_shape else float(v))

    def set(self, f, side=None, val=None, grad=None, name=None):
        """prescribe the value (flattened list or scalar) and gradient (size x dim) of f at the point"""
        info = self.coeff(f, name)
        if info.subs:
            o = 0
            if grad is not None and np.ndim(grad) == 0:
                grad = np.zeros((info.size, self.dim), dtype=int)
            for s in info.subs:
                self.set(s.f, side, None if val is None else val[o:o+s.size],
                         None if grad is None else grad[o:o+s.size])
                o += s.size
            return
        sides = self.sides if side is None else (side,)
        for sd in sides:
            if val is not None:
                vv = list(val) if isinstance(val, (list, tuple, np.ndarray)) else [val]
                for c in range(info.size):
                    info.vals[(sd, c)] = vv[c]
            if grad is not None:
                g = np.asarray(grad, dtype=object)
                if g.ndim == 0:
                    g = np.zeros((info.size, self.dim), dtype=int)
                g = g.reshape(info.size, self.dim)
                for c in range(info.size):
                    for j in range(self.dim):
                        v = g[c, j]
                        info.grads[(sd, c, j)] = Fraction(0) if (not is_sym(v) and v == 0) else v

    def vals(self, f, side=None):
        info = self.coeff(f)
        return [self.value(f, side, c) for c in range(info.size)]

    def grads(self, f, side=None):
        info = self.coeff(f)
        return [[self.grad(f, side, c, j) for j in range(self.dim)] for c in range(info.size)]

    def same_on_both_sides(self, f):
        """a continuous state: equal value and gradient on both sides"""
        info = self.coeff(f)
        if info.subs:
            for s in info.subs:
                self.same_on_both_sides(s.f)
            return
        for c in range(info.size):
            nm = f'{info.name}_{c}'
            v = info.vals.get(('+', c))         # keeps what has been assumed about it
            v = self._real(nm) if v is None else v
            info.vals[('+', c)] = info.vals[('-', c)] = v
            for j in range(self.dim):
                if info.totdeg == 0 or (info.zero_z and j == self.dim - 1):
                    g = Fraction(0)
                else:
                    g = self._real(f'{nm}_d{j}')
                info.grads[('+', c, j)] = info.grads[('-', c, j)] = g

    # -- terminal values (symbolic mode) -----------------------------------------------------------------------
    def terminal(self, f, comp, side, derivs):
        U = ufl.classes
        if isinstance(f, fd.Constant):
            if derivs:
                return Fraction(0)
            if id(f) in self.consts:
                v = self.consts[id(f)][1]
                if f.ufl_shape:
                    return v[int(np.ravel_multi_index(comp, f.ufl_shape))]
                return v
            a = f.values().reshape(f.ufl_shape) if f.ufl_shape else f.values()
            return core.frac(float(a[comp] if f.ufl_shape else a[0]))
        if isinstance(f, ufl.Coefficient):
            info = self.coeff(f)
            c = int(np.ravel_multi_index(comp, f.ufl_shape)) if f.ufl_shape else 0
            if self.interior and side is None and info.cont not in ('h1', 'const'):
                raise Unsupported(f'unrestricted discontinuous coefficient {info.name} on an interior facet')
            s = side or ('+' if self.interior else None)
            if not derivs:
                return self.value(f, s, c)
            if len(derivs) == 1:
                return self.grad(f, s, c, derivs[0])
            if len(derivs) == 2:
                return self.hess(f, s, c, *derivs)
            if info.deg <= 2:
                return Fraction(0)
            raise Unsupported('third derivative')
        if isinstance(f, ufl.SpatialCoordinate):
            if not derivs:
                return self.x[comp[0]]
            if len(derivs) == 1:
                return Fraction(int(derivs[0] == comp[0]))
            return Fraction(0)
        if isinstance(f, ufl.FacetNormal):
            if derivs:
                return Fraction(0)
            v = self.n[comp[0]]
            if self.interior and side is None:
                raise Unsupported('unrestricted normal on an interior facet')
            if not is_sym(v) and v == 0:
                return Fraction(0)
            return -v if side == '-' else v
        if isinstance(f, U.GeometricQuantity):
            if derivs:
                return Fraction(0)
            if self.twin is not None:
                return self.twin.terminal(f, comp, FLIP[side], derivs)
            k = (type(f).__name__, side if isinstance(f, U.GeometricCellQuantity) else None)
            if k not in self.geo:
                self.geo[k] = self.h.real(f'geo.{k[0]}{ {"+": "p", "-": "m", None: ""}[k[1]] }', gt=0)
            return self.geo[k]
        if isinstance(f, U.Zero):
            return Fraction(0)
        if isinstance(f, U.ScalarValue):
            return core.frac(f._value) if not derivs else Fraction(0)
        if isinstance(f, ufl.Argument):
            raise Unsupported('argument left in the form')
        raise Unsupported(f'terminal {type(f).__name__}')

    # -- integrals --------------------------------------------------------------------------------------------
    def matching(self, form):
        out = []
        if form is None or form == 0:
            return out
        for it in form.integrals():
            if it.integral_type() != ITYPE[self.kind]:
                continue
            sid = it.subdomain_id()
            sids = sid if isinstance(sid, tuple) else (sid,)
            ok = False
            for s in sids:
                if s in ('everywhere', 'otherwise') or s == self.subdomain:
                    ok = True
            if self.subdomain is None and not ok and self.kind in ('dx', 'dS', 'dS_h', 'dS_v', 'ds_t', 'ds_b'):
                ok = False
            if ok:
                out.append(it)
        return out

    def integral(self, form, subs=None):
        """value of the form's integrand(s) of this kind at the point.  ``subs``: Argument -> Function"""
        its = self.matching(form)
        if self.sym:
            s = Fraction(0)
            for it in its:
                g = it.integrand()
                if subs:
                    g = ufl.replace(g, subs)
                v = self.ev(g)
                s = v if not is_sym(s) and s == 0 else (s if not is_sym(v) and v == 0 else s + v)
            return s
        if not its:
            return 0.0
        g = 0
        for it in its:
            e = it.integrand()
            if subs:
                e = ufl.replace(e, subs)
            g = g + e
        return self._assemble(g)

    def expr(self, e, side=None):
        """value of a scalar UFL expression at the point"""
        if self.sym:
            return self.ev(e, side=side)
        if self.interior:
            e = ufl.as_ufl(e)
            e = e(side) if side else e
        return self._assemble(e)

    # -- concrete realisation -----------------------------------------------------------------------------------
    def _meas(self):
        m = MEAS[self.kind]
        sd = self.subdomain
        if self.kind == 'ds' and sd is None:
            sd = 1
        if self.kind == 'ds_v' and sd is None:
            sd = 1
        kw = {'domain': self.mesh, 'metadata': {'quadrature_degree': 1}}
        return m(sd, **kw) if sd is not None else m(**kw)

    def _assemble(self, g):
        coeffs = ufl.algorithms.extract_coefficients(ufl.as_ufl(g))
        for f in coeffs:
            self.coeff(f)
        self._place()
        for f in coeffs:
            self._realise(f)
        return float(self._int(g))/self.area

    def _int(self, g):
        """integral over the one cell or facet"""
        if self.mask is not None:
            g = ufl.conditional(ufl.gt(fd.avg(self.mask) if self.interior else self.mask, 0.25), g, 0.0)
        if isinstance(apply_derivatives(apply_algebra_lowering(ufl.as_ufl(g))), ufl.classes.Zero):
            return 0.0
        return fd.assemble(g*self._meas())

    def _select(self, DG0):
        self.mask = None
        nc = DG0.dof_dset.size if hasattr(DG0, 'dof_dset') else DG0.dim()
        if self.kind == 'dx':
            want = np.arange(nc) == 0
        elif self.kind in ('dS_v', 'ds_v'):
            want = np.arange(nc) % (self.mesh.layers - 1) == 0
        elif self.kind in ('dS_h', 'ds_t', 'ds_b'):
            want = np.arange(nc)//(self.mesh.layers - 1) == 0
        else:
            return
        self.mask = fd.Function(DG0)
        self.mask.dat.data[:] = want

    def _place(self):
        """deform the mesh so that the facet has the requested normal"""
        if self._placed:
            return
        self._placed = True
        mesh = self.mesh
        X = mesh.coordinates
        key = id(mesh)
        if key not in _ORIGX:
            _ORIGX[key] = X.dat.data_ro.copy()
        X.dat.data[:] = _ORIGX[key]
        meas = self._meas()
        DG0 = fd.FunctionSpace(mesh, 'DG', 0)
        ind = fd.Function(DG0)
        ind.dat.data[:] = np.arange(ind.dat.data.shape[0])
        self._select(DG0)
        one = fd.Constant(1.0)
        if self.kind == 'dx':
            self.area = self._int(one)
            xc = [self._int(fd.SpatialCoordinate(mesh)[i])/self.area for i in range(self.dim)]
        else:
            n = fd.FacetNormal(mesh)
            R = (lambda e: e('+')) if self.interior else (lambda e: e)
            area = self._int(one)
            n0 = np.array([self._int(R(n)[i]) for i in range(self.dim)])/area
            nt = np.array([float(c) for c in self.n])
            if self.dim == 2 or self.kind in ('dS_v', 'ds_v'):
                c = n0[0]*nt[0] + n0[1]*nt[1]
                s = n0[0]*nt[1] - n0[1]*nt[0]
                M = np.array([[c, -s], [s, c]])
                X.dat.data[:, :2] = X.dat.data_ro[:, :2] @ M.T
            else:
                a, b = -nt[0]/nt[2], -nt[1]/nt[2]
                X.dat.data[:, 2] += a*X.dat.data_ro[:, 0] + b*X.dat.data_ro[:, 1]
            area = self._int(one)
            n1 = np.array([self._int(R(n)[i]) for i in range(self.dim)])/area
            if not np.allclose(n1, nt, atol=1e-8):
                raise PreconditionFailed()
            self.area = area
            xc = [self._int(fd.SpatialCoordinate(mesh)[i])/area for i in range(self.dim)]
        X.dat.data[:] += np.array([float(t) for t in self.x]) - np.array(xc)
        if self.interior:
            cp = self._int(ind('+'))/self.area
            self.ind = ind
            self.cp = int(round(cp))
            ip = fd.Function(DG0)
            ip.dat.data[:] = (ind.dat.data_ro == self.cp)
            self.isplus = ip

    def _poly(self, info, side):
        dim = self.dim
        x = fd.SpatialCoordinate(self.mesh)
        comps = []
        vals = [float(self.value(info.f, side, c)) for c in range(info.size)]
        for c in range(info.size):
            e = fd.Constant(vals[c])
            if info.totdeg > 0 and info.cont != 'const':
                for j in range(dim):
                    g = float(self.grad(info.f, side, c, j))
                    e = e + fd.Constant(g)*(x[j] - fd.Constant(float(self.x[j])))
                if info.deg > 1 or info.over.get('hess'):
                    for i in range(dim):
                        for j in range(dim):
                            hh = float(self.hess(info.f, side, c, i, j))
                            e = e + fd.Constant(0.5*hh)*(x[i] - fd.Constant(float(self.x[i])))*(x[j] - fd.Constant(float(self.x[j])))
            comps.append(e)
        if not info.shape:
            return comps[0]
        if len(info.shape) == 1:
            return fd.as_vector(comps)
        m = np.array(comps, dtype=object).reshape(info.shape)
        return fd.as_tensor(m.tolist())

    def _realise(self, f):
        info = self.coeff(f)
        if getattr(info, 'done', False):
            return
        info.done = True
        if info.subs:
            for s in info.subs:
                self._realise(s.f)
            return
        if info.cont == 'const':
            f.assign(float(self.value(f, None, 0)))
            return
        if not self.interior:
            f.interpolate(self._poly(info, None))
        else:
            f.interpolate(fd.conditional(self.isplus > 0.5, self._poly(info, '+'), self._poly(info, '-')))
        # the realised function must have the requested value at the point
        if info.cont != 'l2':
            for s in self.sides:
                for c in range(info.size):
                    e = f[tuple(int(q) for q in np.unravel_index(c, info.shape))] if info.shape else f
                    if s:
                        e = e(s)
                    got = self._int(e)/self.area
                    want = float(self.value(f, s, c))
                    if abs(got - want) > 1e-6*(1 + abs(want)):
                        raise PreconditionFailed()

    def close(self):
        for c, v in self.saved_consts:
            c.assign(v if c.ufl_shape else float(np.ravel(v)[0]))
        if not self.sym and id(self.mesh) in _ORIGX:
            self.mesh.coordinates.dat.data[:] = _ORIGX[id(self.mesh)]

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


_ORIENT = {}
_ORIGX = {}


def test_function_of(form_or_space, name='v'):
    V = form_or_space
    return fd.Function(V, name=name)
