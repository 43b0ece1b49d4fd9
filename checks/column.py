"""A water column of an extruded mesh, cut into layers of arbitrary heights: weak forms of fields that do not vary
horizontally, evaluated exactly (z-polynomials; quadrature of sufficient degree).

Symbolic mode: nodal values and heights are arbitrary numbers.  Concrete mode: a real extruded mesh with these heights."""
from fractions import Fraction as Fr
import numpy as np
import ufl
import firedrake as fd
from symx.ufleval import Evaluator, add, mul
from symx.core import is_sym, Unsupported, frac, z3
from symx.point import Point, edeg
from thetis.utility import element_continuity

BOOLE = [(Fr(0), Fr(7, 90)), (Fr(1, 4), Fr(32, 90)), (Fr(1, 2), Fr(12, 90)), (Fr(3, 4), Fr(32, 90)), (Fr(1), Fr(7, 90))]
_plus_below = []


def plus_is_below():
    if not _plus_below:
        p = Point.__new__(Point)
        p.kind = 'dS_h'
        _plus_below.append(p.orientation() > 0)
    return _plus_below[0]


def lagrange(q, k, t, d):
    """value (d=0) or derivative of the k-th equispaced Lagrange polynomial of degree q"""
    if q == 0:
        return Fr(int(d == 0))
    xs = [Fr(i, q) for i in range(q + 1)]
    den = Fr(1)
    for i in range(q + 1):
        if i != k:
            den *= xs[k] - xs[i]
    if d == 0:
        r = Fr(1)
        for i in range(q + 1):
            if i != k:
                r *= t - xs[i]
        return r/den
    tot = Fr(0)
    for j in range(q + 1):
        if j != k:
            r = Fr(1)
            for i in range(q + 1):
                if i not in (k, j):
                    r *= t - xs[i]
            tot += r
    return tot/den


class Column:
    def __init__(self, h, mesh, heights, bottom=0):
        self.h, self.mesh, self.H = h, mesh, list(heights)
        self.n = len(self.H)
        self.zb = [bottom]
        for k in self.H:
            self.zb.append(self.zb[-1] + k)
        self.f, self.c, self.keep, self.ih = {}, {}, set(), Fr(1)
        self.ev = Evaluator(self)

    # -- fields -------------------------------------------------------------------------------------------------
    def zdeg(self, V):
        d = V.ufl_element().degree()
        return d[1] if isinstance(d, tuple) else d

    def field(self, f, nodal, keep=False):
        """nodal[component][layer][node]; keep: part of the operator, not of the right-hand side"""
        if keep:
            self.keep.add(id(f))
        self.f[id(f)] = (f, self.zdeg(f.function_space()), nodal)

    def nodes(self, V, make, size):
        """nodal values by make(name): shared between layers where the element is continuous"""
        q = self.zdeg(V)
        dg = element_continuity(V.ufl_element()).vertical in ('dg', 'hdiv')
        out, free = [], []
        for c in range(size):
            lay = []
            for k in range(self.n):
                row = []
                for i in range(q + 1):
                    if not dg and k > 0 and i == 0:
                        row.append(lay[-1][-1])
                    else:
                        row.append(make(f'{c}.{k}.{i}'))
                        free.append(row[-1])
                lay.append(row)
            out.append(lay)
        return out

    def const(self, c, v):
        self.c[id(c)] = (c, v)

    def poly(self, f, comp, layer, t, d=0):
        _, q, nod = self.f[id(f)]
        r = Fr(0)
        for i in range(q + 1):
            b = lagrange(q, i, t, d)
            if b:
                r = add(r, mul(nod[comp][layer][i], b))
        return mul(r, self.ih) if d else r

    # -- Evaluator terminals --------------------------------------------------------------------------------------
    def terminal(self, f, comp, side, derivs):
        if isinstance(f, fd.Constant):
            if derivs:
                return Fr(0)
            if id(f) in self.c:
                v = self.c[id(f)][1]
                return v[comp[0]] if f.ufl_shape else v
            a = f.values().reshape(f.ufl_shape) if f.ufl_shape else f.values()
            return frac(float(a[comp] if f.ufl_shape else a[0]))
        if isinstance(f, ufl.Coefficient):
            if id(f) not in self.f:
                raise Unsupported(f'unknown coefficient {f}')
            if len(derivs) > 1:
                raise Unsupported('second derivative')
            if derivs and derivs[0] != 2:
                return Fr(0)
            layer, t = self.at
            if side is not None:
                below = (side == '+') == plus_is_below()
                layer, t = (layer, Fr(1)) if below else (layer + 1, Fr(0))
            elif self.at_facet:
                raise Unsupported('unrestricted coefficient on a facet')
            c = comp[0] if f.ufl_shape else 0
            return self.poly(f, c, layer, t, len(derivs))
        if isinstance(f, ufl.FacetNormal):
            if derivs or comp[0] != 2:
                return Fr(0)
            if self.at_facet:
                return Fr(1) if (side == '+') == plus_is_below() else Fr(-1)
            return Fr(self.nz)
        if isinstance(f, ufl.classes.Zero):
            return Fr(0)
        if isinstance(f, ufl.classes.ScalarValue):
            return frac(f._value) if not derivs else Fr(0)
        raise Unsupported(f'terminal {type(f).__name__}')

    def _at(self, g, layer, t, facet=False, nz=0):
        self.at, self.at_facet, self.nz = (layer, t), facet, nz
        self.ev.cache.clear()
        return self.ev(g)

    # -- integral over the column ---------------------------------------------------------------------------------
    def integral(self, form, subs, need=None):
        tot = Fr(0)
        for it in form.integrals():
            g = ufl.replace(it.integrand(), subs)
            ty = it.integral_type()
            if ty == 'cell':
                # affine in d/dz = (1/height) d/dt: the height of the layer cancels in that part
                for k in range(self.n):
                    g0, g1, g2 = Fr(0), Fr(0), Fr(0)
                    for t, w in BOOLE:
                        v = []
                        for self.ih in (Fr(0), Fr(1), Fr(2)):
                            v.append(mul(self._at(g, k, t), w))
                        g0, g1, g2 = add(g0, v[0]), add(g1, v[1]), add(g2, v[2])
                    z = add(add(g2, mul(-2, g1)), g0)
                    if not (z == 0 if not is_sym(z) else z3.is_true(z3.simplify(z.e == 0, som=True))):
                        raise Unsupported('integrand is not affine in d/dz')
                    tot = add(tot, add(mul(g0, self.H[k]), add(g1, mul(-1, g0))))
            elif ty == 'interior_facet_horiz':
                for k in range(self.n - 1):
                    tot = add(tot, self._at(g, k, Fr(1), True))
            elif ty == 'exterior_facet_top':
                tot = add(tot, self._at(g, self.n - 1, Fr(1), nz=1))
            elif ty == 'exterior_facet_bottom':
                tot = add(tot, self._at(g, 0, Fr(0), nz=-1))
            elif ty not in ('interior_facet_vert', 'exterior_facet_vert'):
                raise Unsupported(ty)
        return tot

    def equations(self, form, test, size=1):
        """the weak equation tested with every vertical basis function"""
        V = test.function_space() if hasattr(test, 'function_space') else test.ufl_function_space()
        w = fd.Function(V)
        q, dg = self.zdeg(V), element_continuity(V.ufl_element()).vertical in ('dg', 'hdiv')
        out = []
        for c in range(size):
            basis = [(k, i) for k in range(self.n) for i in range(q + 1)] if dg else \
                [(k, i) for k in range(self.n) for i in range(q + 1) if k == 0 or i > 0]
            for k0, i0 in basis:
                nod = [[[Fr(int(cc == c and (k, i) == (k0, i0) or (not dg and cc == c and i0 == q and i == 0 and k == k0 + 1)))
                         for i in range(q + 1)] for k in range(self.n)] for cc in range(size)]
                self.field(w, nod)
                out.append(self.integral(form, {test: w}))
        return out

    def solve(self, prob, out, size=1):
        """solution of the weak equations; the matrix does not depend on the layer heights"""
        V, F = out.function_space(), prob.F
        test = F.arguments()[0]
        ids = []
        tmpl = self.nodes(V, lambda s: ids.append(s) or len(ids) - 1, size)
        N = len(ids)

        def put(vec):
            self.field(out, [[[vec[i] for i in row] for row in lay] for lay in tmpl])
            return self.equations(F, test, size)
        saved = dict(self.f), dict(self.c)
        others = [k for k in self.f if k != id(out) and k not in self.keep]
        for k in others:
            f, q, nod = self.f[k]
            self.f[k] = f, q, [[[Fr(0) for _ in row] for row in lay] for lay in nod]
        for k, (c, v) in self.c.items():
            self.c[k] = c, ([Fr(0)]*len(v) if c.ufl_shape else Fr(0))
        A = [put([Fr(int(i == j)) for i in range(N)]) for j in range(N)]
        self.f.update(saved[0])
        self.c.update(saved[1])
        b = put([Fr(0)]*N)
        if any(is_sym(v) for col in A for v in col):
            raise Unsupported('matrix depends on the heights')
        M = [[A[j][i] for j in range(N)] + [-b[i]] for i in range(len(b))]
        piv = 0
        for j in range(N):
            r = next((r for r in range(piv, len(M)) if M[r][j] != 0), None)
            if r is None:
                return None         # no unique solution
            M[piv], M[r] = M[r], M[piv]
            k = M[piv][j]
            M[piv] = [mul(v, 1/k) for v in M[piv]]
            for i in range(len(M)):
                if i != piv and M[i][j] != 0:
                    k = M[i][j]
                    M[i] = [add(a, mul(-k, c)) for a, c in zip(M[i], M[piv])]
            piv += 1
        vec = [M[i][N] for i in range(N)]
        nod = [[[vec[i] for i in row] for row in lay] for lay in tmpl]
        self.field(out, nod)
        return nod

    # -- real mesh ------------------------------------------------------------------------------------------------
    def realise(self):
        """concrete mode: put mesh and fields in place"""
        X = self.mesh.coordinates
        if not hasattr(self.mesh, '_ref_layers'):
            z = np.unique(np.round(X.dat.data_ro[:, 2], 9))
            assert len(z) == self.n + 1
            self.mesh._ref_layers = [np.abs(X.dat.data_ro[:, 2] - q) < 1e-6 for q in z]
        for q, ix in zip(self.zb, self.mesh._ref_layers):
            X.dat.data[ix, 2] = float(q)
        for f, q, nod in self.f.values():
            self.place(f, q, nod)
        for c, v in self.c.values():
            c.assign([float(t) for t in v] if c.ufl_shape else float(v))

    @staticmethod
    def regular(prob):
        """concrete mode: is the matrix of the real problem regular?"""
        a = fd.assemble(prob.J, mat_type='aij').petscmat
        a = a.convert('dense').getDenseArray()
        sv = np.linalg.svd(a, compute_uv=False)
        return bool(sv[-1] > 1e-9*sv[0])

    def _nodes(self, V):
        S = fd.FunctionSpace(self.mesh, V.sub(0).ufl_element() if V.value_size > 1 else V.ufl_element())
        z = fd.Function(S).interpolate(fd.SpatialCoordinate(self.mesh)[2]).dat.data_ro
        m = S.cell_node_map()
        for cell in m.values:
            for k in range(self.n):
                for nd in cell + k*np.asarray(m.offset):
                    yield k, nd, float(z[nd])

    def place(self, f, q, nod):
        V = f.function_space()
        a = f.dat.data
        for k, nd, z in self._nodes(V):
            t = (z - float(self.zb[k]))/float(self.H[k])
            v = [sum(float(nod[c][k][i])*float(lagr(q, i, t)) for i in range(q + 1)) for c in range(len(nod))]
            a[nd] = v[0] if not f.ufl_shape else v

    def read(self, f, layer, t, comp=0):
        """value of a real function"""
        V = f.function_space()
        z0 = float(self.zb[layer]) + float(t)*float(self.H[layer])
        for k, nd, z in self._nodes(V):
            if k == layer and abs(z - z0) < 1e-9*(1 + abs(z0)):
                a = f.dat.data_ro[nd]
                return float(a[comp] if f.ufl_shape else a)
        raise ValueError('no node there')


def lagr(q, k, t):
    r = 1.0
    for i in range(q + 1):
        if i != k:
            r *= (t - i/q)/(k/q - i/q)
    return r
