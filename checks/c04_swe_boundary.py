"""C04: external data of the 2D shallow water boundary conditions"""
from swe_common import *
from thetis.shallowwater_eq import ShallowWaterTerm

ck = Check('C04', 'boundary data')
ck.encoded('shallowwater_eq.ShallowWaterTerm.get_bnd_functions', 'shallowwater_eq.ShallowWaterTerm.impose_dynamic_bnd',
           'shallowwater_eq.HUDivTerm.residual', 'utility.DepthExpression', 'utility.compute_boundary_length')
ck.bound('one point of a boundary facet, arbitrary interior state, normal, boundary data; every supported tag combination'
         ' with and without drag; all sets of up to 3 tags out of the supported ones and two unknown ones')
ck.assumed('wet boundary (depth >= 0.01) unless wetting-drying is on')


def mapping(kw, tags):
    def run(h):
        s = swe(**kw)
        with s.point(h, 'ds', 1) as p:
            positive_depth(h, s, p)
            al = p.constant(s.wd_alpha, 'alpha', lo=0.1, hi=5) if s.wd else None
            v = bnd_functions(s, p, tags)
            if 'elev' in v and s.nonlinear and not s.wd:
                h.assume(p.value(s.bath) + v['elev'] >= 0.01)
            t = s.eq.terms['HUDivTerm']
            uv, eta = fd.split(s.sol)
            ee, ue = t.get_bnd_functions(eta, uv, 1, s.bnd)
            eta_e = p.expr(ee)
            u_e = [p.expr(ue[0]), p.expr(ue[1])]
            n = p.n
            h.prove_eq(eta_e, v.get('elev', p.value(s.eta)), 'external elevation')
            if 'uv' in v:
                want = v['uv']
            elif 'un' in v:
                want = [v['un']*n[0], v['un']*n[1]]
            elif 'flux' in v:
                want = None
                H = depth_ref(s, p, v.get('elev', p.value(s.eta)), alpha=al)
                L = float(s.mesh.boundary_len[1])
                L = frac(L) if h.symbolic else L
                h.prove_eq((u_e[0]*n[0] + u_e[1]*n[1])*H*L, v['flux'], 'volume flux through the section, outward')
                h.prove_eq(u_e[0]*n[1] - u_e[1]*n[0], 0, 'no tangential velocity')
            else:
                want = p.vals(s.uv)
            if want is not None:
                h.prove_eq(u_e[0], want[0], 'external u')
                h.prove_eq(u_e[1], want[1], 'external v')
    return run


def steering(h):
    """which tag sets are open, closed or rejected"""
    s = swe()
    t = s.eq.terms['HUDivTerm']
    known = ['elev', 'uv', 'un', 'flux', 'drag']
    tags = [h.choice(f't{i}', known + ['', 'symm', 'value']) for i in range(3)]
    tags = [q for i, q in enumerate(tags) if q and q not in tags[:i]]
    funcs = {q: fd.Constant(0.0) for q in tags}
    try:
        r = t.impose_dynamic_bnd(funcs, 1)
    except Exception:
        r = 'rejected'
    if any(q not in known for q in tags):
        h.prove(r == 'rejected', 'unknown tag is rejected')
    else:
        h.prove(r == any(q in known[:4] for q in tags), 'open exactly when elevation or velocity data are given')
    h.prove(t.impose_dynamic_bnd(None, 1) is False, 'no data: closed')


def closed(kw, tags):
    def run(h):
        s = swe(**kw)
        with s.point(h, 'ds', 1) as p:
            positive_depth(h, s, p)
            if s.wd:
                p.constant(s.wd_alpha, 'alpha', lo=0.1, hi=5)
            bnd_functions(s, p, tags)
            p.set(s.w, None, [0, 0, 1], 0)
            h.prove_eq(p.integral(s.form()), 0, 'impermeable')
    return run


def other_boundary(kw, tags):
    """data of another boundary section do not act here"""
    def run(h):
        s = swe(**kw)
        with s.point(h, 'ds', 2) as p:
            positive_depth(h, s, p)
            bnd_functions(s, p, tags, bid=1)
            a = p.integral(s.form())
            s.bnd = {}
            h.prove_eq(a, p.integral(s.form()), 'only on its own section')
    return run


def lengths(h):
    """boundary length = sum of the facet lengths of the section (scaled mesh)"""
    from thetis.utility import compute_boundary_length
    s = swe()
    L = s.mesh.boundary_len
    for b in (1, 2, 3, 4):
        h.prove_eq(float(L[b]), 1.0, f'length of section {b}', tol=1e-9)


for nl, wd in ((True, False), (False, False), (True, True)):
    kw = dict(family='dg-dg', nonlinear=nl, wd=wd)
    t = f"{'nl' if nl else 'lin'}{',wd' if wd else ''}"
    for tags in BND_COMBOS:
        for extra in ((), ('drag',)):
            ck.harness(f'mapping[{t}|{"+".join(tags + extra)}]', mapping(kw, tags + extra), validate=nl and not wd)
            ck.harness(f'mapping[{t}|{"+".join(extra + tags[::-1])} rev]', mapping(kw, extra + tags[::-1]), validate=False)
    for tags in ((), ('drag',)):
        ck.harness(f'closed[{t}|{"+".join(tags)}]', closed(kw, tags), validate=nl)
    for tags in BND_COMBOS:
        ck.harness(f'other-section[{t}|{"+".join(tags)}]', other_boundary(kw, tags), validate=False)
ck.harness('steering', steering, expect_paths=100)
ck.harness('boundary-length', lengths)
ck.finish()
