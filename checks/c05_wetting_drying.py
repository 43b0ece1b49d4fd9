"""C05: the wetting-drying depth is positive and tends to the plain depth"""
import types
from swe_common import *
from thetis import solver2d
from firedrake import grad

ck = Check('C05', 'wetting-drying depth')
ck.encoded('utility.DepthExpression.get_total_depth', 'utility.DepthExpression.wd_bathymetry_displacement',
           'solver2d.FlowSolver2d.set_wetting_and_drying_alpha')
ck.bound('one point, arbitrary elevation, bathymetry, alpha > 0 (all real numbers up to 1e6)',
         'automatic alpha: triangles with the cell widths of a unit square, arbitrary bathymetry gradient and caps')


def depth(h, p, s, eta):
    return p.expr(s.depth.get_total_depth(eta))


def setup(h, p, s, two=False):
    al = p.constant(s.wd_alpha, 'alpha', gt=0, hi=1000)
    return al


def positive(h):
    s = swe(family='dg-dg', nonlinear=True, wd=True)
    with s.point(h, 'dx') as p:
        al = setup(h, p, s)
        b, e = p.value(s.bath), p.value(s.eta)
        h.assume(al >= 1e-3)
        H = depth(h, p, s, s.eta)
        h.assume(b + e >= -1000)
        h.prove_lt(0, H, 'depth is positive')
        h.prove_ge(H, b + e, 'not smaller than the plain depth')
        h.prove_le(H - (b + e), al + ((-1)*(b + e) if b + e < 0 else 0), 'bounded displacement')
        h.prove_eq(H*(H - (b + e)), al*al/4, 'hyperbola through alpha/2 at the shoreline', scale=1e6)
        f = p.expr(s.depth.wd_bathymetry_displacement(s.eta))
        h.prove_eq(H, b + e + f, 'depth = bathymetry + elevation + displacement', scale=1e3)


def deep(h):
    s = swe(family='dg-dg', nonlinear=True, wd=True)
    with s.point(h, 'dx') as p:
        al = setup(h, p, s)
        d = p.value(s.bath) + p.value(s.eta)
        h.assume(d > 0)
        H = depth(h, p, s, s.eta)
        h.prove_le((H - d)*d*4, al*al, 'displacement <= alpha^2/(4 depth)', tol=0)
        h.prove_le(H - d, al/2, 'displacement <= alpha/2 in wet regions')


def monotone(h):
    s = swe(family='dg-dg', nonlinear=True, wd=True)
    with s.point(h, 'dx') as p:
        setup(h, p, s)
        e1, e0 = p.value(s.eta), p.value(s.eta_old)
        h.assume(e1 > e0)
        h.assume(e0 + p.value(s.bath) >= -1000)
        h.assume(e1 + p.value(s.bath) <= 1000)
        H1, H0 = depth(h, p, s, s.eta), depth(h, p, s, s.eta_old)
        h.prove_lt(H0 - 1e-13 if not h.symbolic else H0, H1, 'depth increases with elevation')
        h.prove_le(H1 - H0, e1 - e0, 'but not faster than it', tol=0 if h.symbolic else 1e-6)


def plain(nl):
    def run(h):
        s = swe(family='dg-dg', nonlinear=nl, wd=False)
        with s.point(h, 'dx') as p:
            b, e = p.value(s.bath), p.value(s.eta)
            h.prove_eq(depth(h, p, s, s.eta), b + e if nl else b, 'plain depth')
            h.prove_eq(p.expr(fd.as_ufl(s.depth.wd_bathymetry_displacement(s.eta))) if not isinstance(
                s.depth.wd_bathymetry_displacement(s.eta), int) else s.depth.wd_bathymetry_displacement(s.eta), 0,
                'no displacement')
    return run


def linear_wd(h):
    """linear equations: depth is the bathymetry whatever the wetting-drying options"""
    s = swe(family='dg-dg', nonlinear=False, wd=True)
    with s.point(h, 'dx') as p:
        setup(h, p, s)
        h.prove_eq(depth(h, p, s, s.eta), p.value(s.bath), 'bathymetry')


def flow(**kw):
    """solver object without its constructor"""
    s = object.__new__(solver2d.FlowSolver2d)
    s.__dict__.update(kw)
    return s


def auto_alpha(use_min, use_max):
    def run(h):
        s = swe(family='dg-dg', nonlinear=True, wd=True)
        with s.point(h, 'dx') as p:
            o = types.SimpleNamespace(use_wetting_and_drying=True, use_automatic_wetting_and_drying_alpha=True,
                                      wetting_and_drying_alpha=s.wd_alpha, wetting_and_drying_alpha_min=None,
                                      wetting_and_drying_alpha_max=None)
            lo, hi = fd.Constant(0.0), fd.Constant(1.0)
            lov, hiv = p.constant(lo, 'amin', lo=0, hi=100), p.constant(hi, 'amax', lo=0, hi=100)
            h.assume(lov <= hiv)
            if use_min:
                o.wetting_and_drying_alpha_min = lo
            if use_max:
                o.wetting_and_drying_alpha_max = hi
            me = flow(options=o, mesh2d=s.mesh, fields=types.SimpleNamespace(bathymetry_2d=s.bath),
                                       function_spaces=types.SimpleNamespace(P1_2d=s.P1))
            rec = {}
            gx, gy = p.grad(s.bath, None, 0, 0), p.grad(s.bath, None, 0, 1)
            cw = solver2d.get_cell_widths_2d(s.mesh)
            wv = cw.dat.data_ro[0]
            if h.symbolic:
                p.coeff(cw, 'cellwidth')
                p.set(cw, None, [frac(float(wv[0])), frac(float(wv[1]))], 0)

                def interp(self, e, **kw):
                    rec['e'] = e
                    return self
                with patched((fd.Function, 'interpolate', interp), (solver2d, 'get_cell_widths_2d', lambda m: cw)):
                    solver2d.FlowSolver2d.set_wetting_and_drying_alpha(me)
                h.prove('e' in rec, 'alpha is computed')
                a = p.expr(rec['e'])
            else:
                s.bath.interpolate(p._poly(p.coeff(s.bath), None))
                solver2d.FlowSolver2d.set_wetting_and_drying_alpha(me)
                a = float(o.wetting_and_drying_alpha.dat.data_ro[0])
            want = abs(gx)*(frac(float(wv[0])) if h.symbolic else float(wv[0])) \
                + abs(gy)*(frac(float(wv[1])) if h.symbolic else float(wv[1]))
            if use_max:
                h.prove_le(a, hiv, 'at most the maximum', tol=0 if h.symbolic else 1e-9)
            if use_min:
                h.prove_ge(a, lov, 'at least the minimum', tol=0 if h.symbolic else 1e-9)
            inside = (not use_min or bool(want >= lov)) and (not use_max or bool(want <= hiv))
            if inside:
                h.prove_eq(a, want, 'bathymetry change across a cell', scale=1e2)
    return run


def validity(h):
    """a negative constant alpha is refused"""
    s = swe(family='dg-dg', nonlinear=True, wd=True)
    neg = h.bool('negative')
    c = fd.Constant(-0.25 if neg else 0.25)
    me = flow(options=types.SimpleNamespace(use_wetting_and_drying=True, wetting_and_drying_alpha=c,
                                                             use_automatic_wetting_and_drying_alpha=False))
    try:
        solver2d.FlowSolver2d.set_wetting_and_drying_alpha(me)
        r = True
    except AssertionError:
        r = False
    h.prove(r == (not neg), 'alpha must not be negative')


ck.harness('positive', positive)
ck.harness('deep-water', deep)
ck.harness('monotone', monotone)
ck.harness('plain[nonlinear]', plain(True))
ck.harness('plain[linear]', plain(False))
ck.harness('linear-wd', linear_wd)
for a in (True, False):
    for b in (True, False):
        ck.harness(f'auto-alpha[min={a},max={b}]', auto_alpha(a, b))
ck.harness('alpha-validity', validity, expect_paths=2)
ck.finish()
