"""C01: the discrete continuity equation changes volume only through open boundaries and sources"""
from swe_common import *
from thetis.diagnostics import *  # noqa
ck = Check('C01', 'volume')
ck.encoded(*ENCODED)
ck.bound('one integration point of each type (cell, interior facet, exterior facet); piecewise polynomial fields with'
         ' arbitrary value and gradient at it; triangles; families ' + ', '.join(FAMILIES),
         'options: linear/nonlinear x wetting-drying off/on; all source/friction/forcing fields present')
ck.assumed('an integral over the mesh is the weighted sum of its integration points, so a point-wise identity carries over',
           'square roots are taken of non-negative depths (real solution)')


def indicator(p, s):
    p.set(s.w, None, [0, 0, 1], 0)


def alpha(p):
    return None


def make(part, fam, nl, wd, eqclass='full', fields=(), tags=()):
    def run(h):
        s = swe(family=fam, nonlinear=nl, wd=wd, eqclass=eqclass).use(*fields)
        kind = {'interior': 'dS', 'cell': 'dx', 'land': 'ds', 'mass': 'dx'}[part]
        with s.point(h, kind, 1 if kind == 'ds' else None) as p:
            indicator(p, s)
            positive_depth(h, s, p)
            al = p.constant(s.wd_alpha, 'alpha', lo=0.1, hi=5) if wd else None
            p.constant(s.lf, 'lf', lo=0, hi=2)
            if tags:
                bnd_functions(s, p, tags)
            if part == 'interior':
                h.prove_eq(p.integral(s.form()), 0, 'fluxes of an interior facet cancel')
            elif part == 'cell':
                v = p.integral(s.form())
                src = p.value(s.opt_fields['volume_source']) if 'volume_source' in fields else 0
                h.prove_eq(v, src, 'only volume sources act inside a cell')
            elif part == 'land':
                h.prove_eq(p.integral(s.form()), 0, 'no flux through a land boundary')
            elif part == 'mass':
                m1, m0 = p.integral(s.mass(s.sol)), p.integral(s.mass(s.old))
                e1, e0 = p.value(s.eta), p.value(s.eta_old)
                if nl:
                    d = depth_ref(s, p, e1, alpha=al) - depth_ref(s, p, e0, alpha=al)
                    h.prove_eq(m1 - m0, d, 'storage term is the change of the water column')
                else:
                    h.prove_eq(m1 - m0, e1 - e0, 'storage term is the change of the elevation')
    return run


ALLF = ('coriolis', 'wind_stress', 'atmospheric_pressure', 'manning_drag_coefficient', 'viscosity_h',
        'linear_drag_coefficient', 'momentum_source', 'volume_source')
for fam in FAMILIES:
    for nl, wd in ((True, False), (False, False), (True, True)):
        tag = f'{fam},{"nonlin" if nl else "lin"}{",wd" if wd else ""}'
        if fam == 'dg-cg':
            ck.harness(f'interior[{tag}]', make('interior', fam, nl, wd), validate=False)
        else:
            ck.harness(f'interior[{tag}]', make('interior', fam, nl, wd, fields=ALLF), validate=fam == 'dg-dg')
        ck.harness(f'cell[{tag}]', make('cell', fam, nl, wd, fields=ALLF), validate=fam == 'dg-dg')
        ck.harness(f'cell-nosource[{tag}]', make('cell', fam, nl, wd, fields=ALLF[:-1]), validate=False)
        ck.harness(f'land[{tag}]', make('land', fam, nl, wd, fields=ALLF), validate=fam == 'dg-dg')
        ck.harness(f'land-drag[{tag}]', make('land', fam, nl, wd, fields=ALLF, tags=('drag',)), validate=False)
        if not (wd and not nl):
            ck.harness(f'mass[{tag}]', make('mass', fam, nl, wd), validate=fam == 'dg-dg')


def make_cg(part, nl, wd):
    # continuous velocity: the divergence is not integrated by parts; its boundary integral must be cancelled with the
    # same lagged depth (divergence theorem)
    def run(h):
        s = swe(family='cg-cg', nonlinear=nl, wd=wd).use(*ALLF[:-1])
        with s.point(h, 'dx' if part == 'cell' else 'ds', None if part == 'cell' else 1) as p:
            indicator(p, s)
            positive_depth(h, s, p)
            al = p.constant(s.wd_alpha, 'alpha', lo=0.1, hi=5) if wd else None
            p.constant(s.lf, 'lf', lo=0, hi=2)
            H = s.depth.get_total_depth(s.eta_old)
            if part == 'cell':
                h.prove_eq(p.integral(s.form()), p.expr(-fd.div(H*s.uv)), 'cell integral is the divergence of the transport')
            else:
                n = fd.FacetNormal(s.mesh)
                h.prove_eq(p.integral(s.form()), p.expr(H*fd.dot(s.uv, n)),
                           'land boundary cancels the outward transport of the cell integral')
    return run


for nl, wd in ((True, False), (False, False), (True, True)):
    for part in ('cell', 'land'):
        ck.harness(f'{part}[cg-cg,{"nonlin" if nl else "lin"}{",wd" if wd else ""}]', make_cg(part, nl, wd), validate=False)
for eqc in ('freesurf', 'modesplit'):
    for part in ('interior', 'cell', 'land'):
        ck.harness(f'{part}[{eqc}]', make(part, 'dg-dg', True, False, eqclass=eqc, fields=('volume_source', 'coriolis')),
                   validate=False)
ck.harness('mass[freesurf,wd]', make('mass', 'dg-dg', True, True, eqclass='freesurf'), validate=False)
ck.finish()
