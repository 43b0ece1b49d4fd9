"""C07: 2D tracer equations are consistent, upwinded and keep constants"""
from tracer_common import *
from firedrake import grad, dot, Dx

ck = Check('C07', 'tracer consistency')
ck.encoded(*ENCODED)
ck.bound('one point of a cell, interior facet, boundary facet; smooth state: arbitrary value, gradient, Hessian;'
         ' upwinding/dissipation: arbitrary discontinuous state; triangles; tracer DG1/DG2/CG, velocity DG or RT;'
         ' tracer and sediment equation, conservative and not; all boundary tags and pairs')
ck.assumed('continuous tracer elements: the normal velocity is continuous (the documented CG form has no facet term)',
           'SUPG consistency is not claimed (its weighting function is discontinuous)')


def strong_ref(t, comp=None):
    c = t.c if t.nlab == 1 else t.c[comp]
    u = t.corr*t.uv
    if t.conservative:
        R = -(Dx(u[0]*c, 0) + Dx(u[1]*c, 1))
    else:
        R = -(u[0]*Dx(c, 0) + u[1]*Dx(c, 1))
    if any(k.startswith('diffusivity') for k in t.fields):
        R = R + Dx(t.mu*Dx(c, 0), 0) + Dx(t.mu*Dx(c, 1), 1)
    H = t.H()
    if t.kind == 'tracer':
        if any(k.startswith('source') for k in t.fields):
            R = R + (H*t.S if t.conservative else t.S)
    else:
        R = R + (t.model.ero if t.conservative else t.model.ero/H) - t.model.dep*c/H
    return R


def cell(kw, fields):
    def run(h):
        t = tr(deg=2, **kw).use(*fields)
        with t.point(h, 'dx') as p:
            F = t.residual()
            for i, (S, B) in enumerate(strong_and_flux(F, t.test, fd.SpatialCoordinate(t.mesh), 2)):
                h.prove_eq(p.expr(S), p.expr(strong_ref(t, i)), f'strong form {i}', scale=1e3)
    return run


def leftover(h, t, p, F=None):
    F = t.residual() if F is None else F
    tot = p.integral(F, {t.test: t.w})
    for c, (S, B) in enumerate(strong_and_flux(F, t.test, fd.SpatialCoordinate(t.mesh), 2)):
        for sd, sg in ((('+', 1), ('-', -1)) if p.interior else ((None, 1),)):
            wc = p.value(t.w, sd, c)
            for j in range(2):
                tot = tot + sg*wc*p.n[j]*p.expr(B[j], sd)
    return tot


def facet(kw, fields):
    def run(h):
        t = tr(deg=2, **kw).use(*fields)
        with t.point(h, 'dS') as p:
            for f in (t.c, t.uv, t.eta, t.bath, t.mu, t.S):
                p.same_on_both_sides(f)
            h.prove_eq(leftover(h, t, p), 0, 'no left-over on an interior facet', scale=1e4)
    return run


def constant(kw):
    """a constant tracer has no tendency, whatever the (discontinuous) flow"""
    def run(h):
        t = tr(conservative=False, **kw).use('mu')
        cc = h.real('cc', lo=-1000, hi=1000)
        k = [cc] + [h.real(f'cc{i}', lo=-1000, hi=1000) for i in range(1, t.nlab)]
        terms = [n for n in t.eq.terms if 'Advection' in n or 'Diffusion' in n]
        for kind in ('dx', 'dS', 'ds'):
            with t.point(h, kind, 1 if kind == 'ds' else None) as p:
                p.set(t.c, None, k, 0)
                tot = 0
                for n in terms:
                    F = t.eq.terms[n].residual(t.c, t.cold, t.fields, t.fields, t.bnd)
                    if kind == 'dx':
                        for S, B in strong_and_flux(F, t.test, fd.SpatialCoordinate(t.mesh), 2):
                            h.prove_eq(p.expr(S), 0, f'{n}: no tendency in a cell')
                    else:
                        h.prove_eq(leftover(h, t, p, F), 0, f'{n}: no tendency on {kind}', scale=1e3)
    return run


def upwind(kw):
    def run(h):
        t = tr(lf=False, **kw)
        with t.point(h, 'dS') as p:
            r = p.integral(t.term('Advection'))
            up, um = un(p, t.uv, '+')*p.corr, un(p, t.uv, '-')*p.corr
            out = up + um        # > 0: flow from '+' to '-'
            h.assume(out != 0)
            sd = '+' if out > 0 else '-'
            wp, wm = p.value(t.w, '+'), p.value(t.w, '-')
            c = p.value(t.c, sd)
            if t.conservative:
                want = -c*(up if sd == '+' else um)*(wp - wm)
            else:
                want = -c*(up*wp - um*wm)
            h.prove_eq(r, want, 'facet value comes from upstream', scale=1e3)
    return run


def orient(kw):
    def run(h):
        t = tr(**kw).use('mu')
        with t.point(h, 'dS') as p:
            a = p.integral(t.form())
            q = p.swapped()
            if not h.symbolic:
                p.close()
            b = q.integral(t.form())
            h.prove_eq(a, b, 'independent of the numbering of the two cells', scale=1e4)
    return run


def lf_dissipative(kw):
    def run(h):
        a, b = tr(lf=True, **kw), tr(lf=False, **kw)
        with a.point(h, 'dS') as p:
            p.value(a.c, '+'), p.value(a.c, '-')
            for sd in ('+', '-'):
                p.set(a.w, sd, [p.value(a.c, sd)])
            with_lf = p.integral(a.term('Advection'))
            jump = p.value(a.c, '+') - p.value(a.c, '-')
            uu = (un(p, a.uv, '+') + un(p, a.uv, '-'))*p.corr
            lfv = p.lf
        with b.point(h, 'dS') as q:
            for sd in ('+', '-'):
                q.set(b.w, sd, [q.value(b.c, sd)])
            without = q.integral(b.term('Advection'))
        d = with_lf - without
        h.prove_le(d, 0, 'Lax-Friedrichs only removes variance', tol=0 if h.symbolic else 1e-3)
        h.prove_eq(d, -lfv*abs(uu)*jump*jump/4, 'proportional to the speed and the jump', scale=1e4)
    return run


def diffusion(kw):
    def run(h):
        t = tr(**kw).use('mu')
        with t.point(h, 'dx') as p:
            for j in range(2):
                pass
            r = p.integral(t.term('Diffusion'))
            g = sum(p.grad(t.c, None, 0, j)*p.grad(t.w, None, 0, j) for j in range(2))
            h.prove_eq(r, -p.value(t.mu)*g, 'symmetric cell term', scale=1e4)
        if t.Q1.ufl_element() in ufl.H1:
            return
        with t.point(h, 'dS') as p:
            a = p.integral(t.term('Diffusion'))
            F = t.term('Diffusion')
            b = p.integral(fd.replace(fd.replace(fd.replace(F, {t.c: t.cold}), {t.w: t.c}), {t.cold: t.w}))
            h.prove_eq(a, b, 'symmetric facet term', scale=1e4)
        with t.point(h, 'dS') as p:
            for sd in p.sides:
                v = p.value(t.c, sd)
                p.set(t.c, sd, [v], 0)
                p.set(t.w, sd, [v], 0)
            sg = t.options.sipg_factor_tracer
            sgv = p.constant(sg, 'sipg', lo=1, hi=10)
            r = p.integral(t.term('Diffusion'))
            h.prove_le(r, 0, 'the jump penalty only removes variance', tol=0 if h.symbolic else 1e-3)
            r = p.integral(t.term('Diffusion'))
            d = t.Q1.ufl_element().degree()
            j = p.value(t.c, '+') - p.value(t.c, '-')
            mu = (p.value(t.mu, '+') + p.value(t.mu, '-'))/2
            for sd in p.sides:
                il = p.expr(fd.FacetArea(t.mesh)/fd.CellVolume(t.mesh), sd)
                h.prove_le(r, -sgv*((d + 1)*(d + 2)//2)*il*mu*j*j, f'penalty at least the coercivity scale{sd}',
                           tol=0 if h.symbolic else 1e-3)
    return run


TAGS = ['value', 'uv', 'un', 'flux', 'elev']
COMBOS = [('value',), ('uv',), ('un',), ('flux',), ('value', 'uv'), ('value', 'un'), ('value', 'flux'), ('elev', 'flux'),
          ('elev', 'value'), ('elev', 'value', 'flux')]


def ext_data(h, t, p, tags, match=False, bid=1):
    """external data; arbitrary or equal to the interior state -> (values used by the documented rule)"""
    u = [p.value(t.uv, None, j) for j in range(2)]
    n = p.n
    L = frac(t.mesh.boundary_len[1]) if h.symbolic else float(t.mesh.boundary_len[1])
    data, v = {}, {}
    ceil = p.value(t.c)
    for g in tags:
        if g == 'value' and match:
            if not hasattr(t, 'cext'):
                t.cext = fd.Function(t.Q1, name='cext')
            p.coeff(t.cext, 'cext')
            p.set(t.cext, None, [ceil], [[p.grad(t.c, None, 0, j) for j in range(2)]])
            data[g], v[g] = t.cext, ceil
        elif g == 'uv':
            data[g] = fd.Constant((0.0, 0.0))
            if match:
                p.setconst(data[g], u)
                v[g] = u
            else:
                v[g] = p.constant(data[g], 'bc.uv', lo=-1000, hi=1000)
        elif g in ('equilibrium', 'diff_flux'):
            data[g] = fd.Constant(0.0)
            if g == 'diff_flux':
                gn = sum(p.grad(t.c, None, 0, j)*n[j] for j in range(2))
                p.setconst(data[g], p.value(t.mu)*gn)
        else:
            data[g] = fd.Constant(0.0)
            if match:
                un_ = u[0]*n[0] + u[1]*n[1]
                v[g] = {'un': un_, 'flux': un_*p.expr(t.H())*L, 'elev': p.value(t.eta)}[g]
                p.setconst(data[g], v[g])
            else:
                v[g] = p.constant(data[g], f'bc.{g}', lo=-10000, hi=10000)
    t.bnd = {bid: data} if tags else {}
    e = v.get('elev', p.value(t.eta))
    if 'elev' in v and t.nonlinear and not t.wd:
        h.assume(p.value(t.bath) + e >= 0.01)
    if t.wd:
        ra = 1
    ue = [p.corr*q for q in u]
    if 'uv' in v:
        ue = [p.corr*q for q in v['uv']]
    elif 'flux' in v:
        H = p.value(t.bath)
        if t.nonlinear:
            H = H + e
            if t.wd:
                al = p.consts[id(t.wd_alpha)][1]
                H = H + (ssqrt(H*H + al*al) - H)/2
        ue = [p.corr*v['flux']/(H*L)*n[j] for j in range(2)]
    elif 'un' in v:
        ue = [p.corr*v['un']*n[j] for j in range(2)]
    ce = v.get('value', ceil)
    if 'equilibrium' in tags:
        ce = p.value(t.model.equi)
        if t.conservative:
            Hh = p.value(t.bath)
            if t.nonlinear:
                Hh = Hh + e
            ce = ce*Hh
    return ce, ue, e


def mapping(kw, tags):
    """documented external values"""
    def run(h):
        t = tr(**kw)
        with t.point(h, 'ds', 1) as p:
            ce, ue, e = ext_data(h, t, p, tags)
            term = [x for k, x in t.eq.terms.items() if 'Advection' in k][0]
            term.corr_factor = t.corr
            if not t.bnd:
                return
            got = term.get_bnd_functions(t.c, t.corr*t.uv, t.eta, 1, t.bnd)
            h.prove_eq(p.expr(got[0]), ce, 'external tracer', scale=10)
            h.prove_eq(p.expr(got[1][0]), ue[0], 'external u', scale=10)
            h.prove_eq(p.expr(got[1][1]), ue[1], 'external v', scale=10)
            h.prove_eq(p.expr(got[2]), e, 'external elevation')
    return run


def bnd_upwind(kw, tags):
    def run(h):
        t = tr(**kw)
        with t.point(h, 'ds', 1) as p:
            ce, ue, e = ext_data(h, t, p, tags)
            ui = [p.corr*p.value(t.uv, None, j) for j in range(2)]
            n = p.n
            ci, w = p.value(t.c), p.value(t.w)
            r = p.integral(t.term('Advection'))
            if not tags:
                h.prove_eq(r, -ci*(ui[0]*n[0] + ui[1]*n[1])*w, 'interior flux', scale=1e3)
                return
            a = [(ui[j] + ue[j])/2 for j in range(2)]
            an = a[0]*n[0] + a[1]*n[1]
            h.assume(an != 0)
            if an > 0:
                q = (ui[0]*n[0] + ui[1]*n[1]) if t.conservative else an
                h.prove_eq(r, -ci*q*w, 'outflow carries the interior value', scale=1e3)
            else:
                q = (ue[0]*n[0] + ue[1]*n[1]) if t.conservative else an
                h.prove_eq(r, -ce*q*w, 'inflow carries the external value', scale=1e3)
    return run


def bnd_match(kw, tags, fields):
    """data that agree with the (smooth) state leave no residue"""
    def run(h):
        t = tr(deg=2, **kw).use(*fields)
        with t.point(h, 'ds', 1) as p:
            if 'un' in tags or 'flux' in tags:
                v = h.real('unv', lo=-100, hi=100)
                p.set(t.uv, None, [v*p.n[0], v*p.n[1]])
            ext_data(h, t, p, tags, match=True)
            if not tags and 'mu' in fields:
                h.assume_eq(sum(p.grad(t.c, None, 0, j)*p.n[j] for j in range(2)), 0)
            h.prove_eq(leftover(h, t, p), 0, 'no left-over on a boundary with matching data', scale=1e4)
    return run


def conflict(h):
    t = tr(kind='sediment')
    with t.point(h, 'ds', 1) as p:
        tags = [g for g in ('value', 'equilibrium', 'un') if h.bool(g)]
        data = {g: fd.Constant(0.0) for g in tags}
        term = [x for k, x in t.eq.terms.items() if 'Advection' in k][0]
        term.corr_factor = t.corr
        try:
            term.get_bnd_functions(t.c, t.uv, t.eta, 1, {1: data})
            ok = True
        except ValueError:
            ok = False
        h.prove(ok == (not ('value' in tags and 'equilibrium' in tags)), 'value and equilibrium exclude each other')


def mixed(i, cons, kind):
    """a tracer of a mixed system evolves as if it were alone"""
    def run(h):
        m = tr(labels=('c', 'd'), conservative=cons).use('mu', 'S')
        s = tr(labels=('cd'[i],), conservative=cons).use('mu', 'S')
        sd1 = 1 if kind == 'ds' else None
        with m.point(h, kind, sd1) as p:
            for sd in p.sides:
                p.set(m.w.subfunctions[1 - i], sd, [0], 0)
            r = p.integral(m.form())
            vals = {}
            for f in ('c', 'w'):
                g = getattr(m, f).subfunctions[i]
                for sd in p.sides:
                    vals[f, sd] = (p.value(g, sd), [p.grad(g, sd, 0, j) for j in range(2)])
        with s.point(h, kind, sd1) as q:
            for (f, sd), (v, g) in vals.items():
                q.set(getattr(s, f), sd, [v], [g])
            r1 = q.integral(s.form())
        h.prove_eq(r, r1, 'same residual', scale=1e4)
    return run


OPT = [('nl', dict(nonlinear=True, wd=False)), ('lin', dict(nonlinear=False, wd=False)), ('nl,wd', dict(nonlinear=True, wd=True))]
for on, o in OPT:
    for kind in ('tracer', 'sediment'):
        for cons in (False, True):
            for fam in ('DG', 'CG'):
                k = dict(o, kind=kind, conservative=cons, family=fam)
                n = f"{on},{kind}{',cons' if cons else ''},{fam}"
                ck.harness(f'cell[{n}]', cell(k, ('mu', 'S')), validate=on == 'nl' and fam == 'DG')
                ck.harness(f'facet[{n}]', facet(k, ('mu', 'S')), validate=on == 'nl' and fam == 'DG')
                for tags in (COMBOS if (on == 'nl' and fam == 'DG') or ck.thorough else COMBOS[3:5] if fam == 'DG' else COMBOS[4:5]):
                    ck.harness(f'bnd-match[{n}|{"+".join(tags)}]', bnd_match(k, tags, ('mu',)),
                               validate=on == 'nl' and fam == 'DG' and tags in COMBOS[4:6])
                ck.harness(f'bnd-match[{n}|]', bnd_match(k, (), ('mu',)), validate=False)
                ck.harness(f'bnd-match[{n}|diff_flux]', bnd_match(k, ('diff_flux',), ('mu',)), validate=False)
        for cons in (False, True):
            k = dict(o, kind=kind, conservative=cons)
            n = f"{on},{kind}{',cons' if cons else ''}"
            for tags in (COMBOS if on != 'nl,wd' or ck.thorough else COMBOS[3:4] + COMBOS[7:8]) + ([('equilibrium',), ('equilibrium', 'elev'), ('equilibrium', 'un')]
                                  if kind == 'sediment' and on != 'nl,wd' else []):
                ck.harness(f'mapping[{n}|{"+".join(tags)}]', mapping(k, tags), validate=on == 'nl' and tags == ('value', 'flux'))
                if on != 'nl,wd':
                    ck.harness(f'bnd-upwind[{n}|{"+".join(tags)}]', bnd_upwind(k, tags),
                               validate=on == 'nl' and tags == ('value', 'uv'), expect_paths=2)
            ck.harness(f'bnd-upwind[{n}|]', bnd_upwind(k, ()), validate=False)
for kind in ('tracer', 'sediment'):
    for cons in (False, True):
        for uv in ('dg', 'rt'):
            k = dict(kind=kind, conservative=cons, uv=uv)
            n = f"{kind}{',cons' if cons else ''},{uv}"
            ck.harness(f'upwind[{n}]', upwind(k), expect_paths=2, validate=uv == 'dg')
            ck.harness(f'orientation[{n}]', orient(k), validate=uv == 'dg')
            ck.harness(f'lf-dissipative[{n}]', lf_dissipative(k), validate=uv == 'dg')
        ck.harness(f'facet[{kind},{cons},rt]', facet(dict(kind=kind, conservative=cons, uv='rt'), ('mu', 'S')), validate=False)
    ck.harness(f'diffusion[{kind}]', diffusion(dict(kind=kind)), validate=True)
    ck.harness(f'diffusion[{kind},deg=2]', diffusion(dict(kind=kind, deg=2)), validate=False)
    ck.harness(f'diffusion[{kind},CG]', diffusion(dict(kind=kind, family='CG')), validate=False)
    for fam, uv in (('DG', 'dg'), ('DG', 'rt'), ('CG', 'rt')):
            ck.harness(f'constant[{kind},{fam},{uv}]', constant(dict(kind=kind, family=fam, uv=uv)), validate=fam == 'DG' and uv == 'dg')
ck.harness('constant[two tracers]', constant(dict(labels=('c', 'd'))), validate=False)
for kind in ('dx', 'dS', 'ds'):
    for i in (0, 1):
        for cons in (False, True):
            ck.harness(f'mixed[{kind},{i},{cons}]', mixed(i, cons, kind), validate=i == 1)
for cons in (False, True):
    ck.harness(f'cell[two tracers,{cons}]', cell(dict(labels=('c', 'd'), conservative=cons), ('mu', 'S')), validate=False)
    ck.harness(f'facet[two tracers,{cons}]', facet(dict(labels=('c', 'd'), conservative=cons), ('mu', 'S')), validate=False)
ck.harness('conflict', conflict, expect_paths=8)
ck.finish()
