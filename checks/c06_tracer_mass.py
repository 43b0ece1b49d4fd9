"""C06: the conservative 2D tracer equations conserve tracer mass"""
from tracer_common import *

ck = Check('C06', 'tracer mass')
ck.encoded(*ENCODED)
ck.bound('one point of a cell, interior facet, boundary facet; arbitrary tracer, velocity, elevation, diffusivity on both'
         ' sides; triangles; tracer DG1/DG0/CG1, velocity DG1 or RT2; Lax-Friedrichs on/off; SUPG on CG;'
         ' linear/nonlinear depth and wetting-drying; 1 or 2 tracers')
ck.assumed('the integral over the mesh is the weighted sum of the integration points')


def facet(kw, fields=('mu', 'S'), extra=()):
    def run(h):
        t = tr(conservative=True, **kw).use(*fields)
        for e in extra:
            t.fields[e] = {'uv_p1': t.uv, 'uv_mag': t.mu}[e]
        with t.point(h, 'dS') as p:
            ones(p, t.w)
            h.prove_eq(p.integral(t.form()), 0, 'tracer leaving one cell enters the other', scale=1e3)
        for e in extra:
            t.fields.pop(e)
    return run


def cell(kw, fields):
    def run(h):
        t = tr(conservative=True, **kw).use(*fields)
        with t.point(h, 'dx') as p:
            ones(p, t.w)
            H = p.expr(t.H())
            want = 0
            if 'S' in fields and t.kind == 'tracer':
                want = t.nlab*H*p.value(t.S)
            if t.kind == 'sediment':
                want = p.value(t.model.ero) - p.value(t.model.dep)*p.value(t.c)/H
            h.prove_eq(p.integral(t.form()), want, 'only sources act inside a cell', scale=1e3)
    return run


def boundary(kw, fields):
    def run(h):
        t = tr(conservative=True, **kw).use(*fields)
        with t.point(h, 'ds', 1) as p:
            ones(p, t.w)
            u = un(p, t.uv)
            want = 0
            for i in range(t.nlab):
                want = want - p.value(t.c, None, i)*u*p.corr
            r = p.integral(t.form())
            h.prove_eq(r, want, 'flux through a boundary without data is the interior flux', scale=1e3)
            h.assume_eq(u, 0)
            h.prove_eq(r, 0, 'an impermeable boundary loses nothing', scale=1e3)
    return run


def source_forms(wd, nl):
    """source of the conservative form = depth x source of the non-conservative form"""
    def run(h):
        a = tr(conservative=True, nonlinear=nl, wd=wd).use('S')
        b = tr(conservative=False, nonlinear=nl, wd=wd).use('S')
        with a.point(h, 'dx') as p:
            for f in ('c', 'cold', 'w', 'uv', 'eta', 'bath', 'mu', 'S', 'lf', 'corr', 'wd_alpha', 'H'):
                pass
            rc = p.integral(a.term('Source'))
            H = p.expr(a.H())
            S, w = p.value(a.S), p.value(a.w)
            h.prove_eq(rc, H*S*w, 'conservative source', scale=1e3)
        with b.point(h, 'dx') as p:
            rn = p.integral(b.term('Source'))
            h.prove_eq(rn, p.value(b.S)*p.value(b.w), 'non-conservative source', scale=1e3)
    return run


KW = []
for nl, wd in ((True, False), (False, False), (True, True)):
    KW.append((f"{'nl' if nl else 'lin'}{',wd' if wd else ''}", dict(nonlinear=nl, wd=wd)))
for n, kw in KW:
    for kind in ('tracer', 'sediment'):
        for fam in ('DG', 'CG'):
            k = dict(kw, kind=kind, family=fam)
            ck.harness(f'cell[{n},{kind},{fam}]', cell(k, ('mu', 'S')), validate=n == 'nl')
            ck.harness(f'facet[{n},{kind},{fam}]', facet(k), validate=n == 'nl')
            ck.harness(f'boundary[{n},{kind},{fam}]', boundary(k, ('mu', 'S')), validate=n == 'nl')
    ck.harness(f'source-forms[{n}]', source_forms(kw['wd'], kw['nonlinear']))
for k in (dict(lf=False), dict(uv='rt'), dict(uv='rt', lf=False), dict(deg=2), dict(labels=('c', 'd')),
          dict(kind='sediment', lf=False), dict(kind='sediment', uv='rt')):
    n = ','.join(f'{a}={b}' for a, b in k.items())
    ck.harness(f'facet[{n}]', facet(k), validate='uv' not in k)
    ck.harness(f'boundary[{n}]', boundary(k, ('mu', 'S')), validate='uv' not in k)
    ck.harness(f'cell[{n}]', cell(k, ('mu', 'S')), validate=False)
for e in (('uv_p1',), ('uv_mag',)):
    ck.harness(f'facet[{e[0]}]', facet({}, extra=e))
for k in (dict(family='CG', supg=True), dict(family='CG', supg=True, nonlinear=False)):
    n = ','.join(f'{a}={b}' for a, b in k.items())
    ck.harness(f'facet[{n}]', facet(k), validate=False)
    ck.harness(f'cell[{n}]', cell(k, ('mu', 'S')), validate=False)
    ck.harness(f'boundary[{n}]', boundary(k, ('mu', 'S')), validate=False)
ck.finish()
