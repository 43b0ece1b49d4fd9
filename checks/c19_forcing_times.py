"""C19: time dependent forcings are updated at the times of the scheme, before the evaluation that uses them"""
from ti_common import *
ck = Check('C19', 'forcing-times')
TECHNIQUE = 'symbolic execution of the real time integrators with a forcing callback that returns an unconstrained new value at' \
            ' every call; z3 decides the call times and that each evaluation uses the value of its own time'
ck.encoded('advance/solve_stage/prepare_stage(t, update_forcings) of timeintegrator, rungekutta and implicitexplicit integrators',
           'timeintegrator.CrankNicolson.advance_picard', 'timeintegrator.TimeIntegrator.set_dt/update_fields_old')
ck.bound('scalar equation with one forcing; two consecutive steps with different time steps; t in [-1e6, 1e9], dt in (0, 0.1]')
ck.assumed('implicit systems are regular and solved exactly')


def run_two(make, ref, times, **kw):
    """times(c, t, dt): expected call times; ref(..., s values of the calls of this step, s before the step)"""
    def run(h):
        with SymFD(h, modules=MODS, affine='full') as S:
            y = System(h, S, None)
            dt = step_dt(h, 'dt')
            th = h.real('theta', lo=Fr(1, 2), hi=1) if kw.get('theta') else fx(h, Fr(1, 2))
            T = make(y, dt, opts(th if h.symbolic else float(th), kw.get('semi', False)))
            T.initialize(y.u)
            u = y.u0
            t = h.real('t', lo=-10**6, hi=10**9)
            for st in range(2):
                w = f' (step {st + 1})'
                n0 = len(y.times)
                before = y.s
                T.advance(t, y.forcing)
                got = y.times[n0:]
                exp = times(h, t, dt)
                h.prove(len(got) == len(exp), f'number of forcing updates{w}: {len(got)} for {len(exp)}')
                for i, (a, b) in enumerate(zip(got, exp)):
                    h.prove_le(a - b, 0, f'update time {i}{w} <=', tol=Fr(1, 10**8) if h.symbolic else 1e-6)
                    h.prove_ge(a - b, 0, f'update time {i}{w} >=', tol=Fr(1, 10**8) if h.symbolic else 1e-6)
                if ref:
                    ref(h, y, u, y.value(), dt, th, y.forced[n0 + 1:], before, w)
                if st == 0:
                    dt = step_dt(h, 'dt2')
                    T.set_dt(dt)
                    t = h.real('tb', lo=-10**6, hi=10**9)
                    u = S.symbolic(y.u, 'w', lo=-2, hi=2) if kw.get('external', True) else S.cut(y.u, 'w')[0]
    return run


def mk(cls, **kw):
    return lambda y, dt, o: cls(y.eq, y.u, y.f, dt, o, y.bnd, **kw)


def close(h, a, b, name):
    h.prove_le(a - b, 0, name + ' <=', tol=Fr(1, 10**8))
    h.prove_ge(a - b, 0, name + ' >=', tol=Fr(1, 10**8))


end = lambda h, t, dt: [t + dt]
stages = lambda cls: (lambda h, t, dt: [t + fx(h, c)*dt for c in tableau(cls)[2]])


def r_fe(h, y, u, n, dt, th, s, before, w):
    h.prove_eq(n - u, dt*y.rhs(u, u, before), 'the rate at the old time uses the forcing of the old time' + w)


def r_cn(h, y, u, n, dt, th, s, before, w):
    h.prove_eq(n - u, dt*(th*y.rhs(n, n, s[0]) + (1 - th)*y.rhs(u, u, before)), 'new and old forcing' + w)


def r_ss(h, y, u, n, dt, th, s, before, w):
    h.prove_eq(y.rhs(n, n, s[0]), 0, 'steady state of the new forcing' + w)


def r_erk(cls):
    a, b, c = tableau(cls)

    def ref(h, y, u, n, dt, th, s, before, w):
        k = []
        for i in range(len(b)):
            ui = u + dt*sum((fx(h, a[i][j])*k[j] for j in range(i)), 0)
            k.append(y.rhs(ui, ui, s[i]))
        close(h, n, u + dt*sum((fx(h, q)*k_ for q, k_ in zip(b, k)), 0), 'each stage uses the forcing of its time' + w)
    return ref


def r_dirk(cls):
    a, b, c = tableau(cls)

    def ref(h, y, u, n, dt, th, s, before, w):
        k = []
        lam = y.v['a'] + y.v['b']
        for i in range(len(b)):
            ui = u + dt*sum((fx(h, a[i][j])*k[j] for j in range(i)), 0)
            k.append((lam*ui + s[i] + y.g)/(1 - dt*fx(h, a[i][i])*lam))
        h.prove_eq(n, u + dt*sum((fx(h, q)*k_ for q, k_ in zip(b, k)), 0), 'each stage uses the forcing of its time' + w)
    return ref


def r_imex(cls):
    ea, eb, ec = tableau(cls.erk_class)
    ia, ib, ic = tableau(cls.dirk_class)

    def ref(h, y, u, n, dt, th, s, before, w):
        e, m = [], []
        lam = y.v['a']
        for i in range(len(eb)):
            ui = u + dt*sum((fx(h, ea[i][j])*e[j] + fx(h, ia[i][j])*m[j] for j in range(i)), 0)
            k = lam*ui/(1 - dt*fx(h, ia[i][i])*lam)
            ui = ui + dt*fx(h, ia[i][i])*k
            m.append(k)
            # the source belongs to the explicit half
            e.append(y.v['b']*ui + s[2*i + 1] + y.g)
        h.prove_eq(n, u + dt*sum((fx(h, eb[i])*e[i] + fx(h, ib[i])*m[i] for i in range(len(eb))), 0),
                   'each stage uses the forcing of its time' + w)
    return ref


def t_imex(cls):
    ec, ic = tableau(cls.erk_class)[2], tableau(cls.dirk_class)[2]
    return lambda h, t, dt: [t + fx(h, c)*dt for p in zip(ic, ec) for c in p]


ck.harness('ForwardEuler', run_two(mk(ti.ForwardEuler), r_fe, end))
ck.harness('CrankNicolson', run_two(mk(ti.CrankNicolson), r_cn, end, theta=True))
ck.harness('SteadyState', run_two(mk(ti.SteadyState), r_ss, end))
for n in ('ERKLSPUM2', 'ERKLPUM2', 'ERKMidpoint', 'ERKEuler'):
    cls = getattr(rk, n)
    ck.harness(n, run_two(mk(cls), r_erk(cls), stages(cls), external=False))
ck.harness('SSPRK33', run_two(mk(rk.SSPRK33), r_erk(rk.SSPRK33), stages(rk.SSPRK33)))
for n in ('BackwardEuler', 'ImplicitMidpoint', 'CrankNicolsonRK', 'DIRK22', 'DIRK23', 'DIRK33', 'DIRK43', 'DIRKLSPUM2', 'DIRKLPUM2',
          'ESDIRKMidpoint', 'ESDIRKTrapezoid', 'BackwardEulerUForm', 'DIRK22UForm', 'DIRK33UForm'):
    cls = getattr(rk, n)
    ck.harness(n, run_two(mk(cls), r_dirk(cls), stages(cls)))
for n in ('IMEXLPUM2', 'IMEXLSPUM2', 'IMEXMidpoint', 'IMEXEuler'):
    cls = getattr(ie, n)
    ck.harness(n, run_two(mk(cls), r_imex(cls), t_imex(cls), external=False))


def r_heun(h, y, u, n, dt, th, s, before, w):
    k1 = y.rhs(u, u, s[0])
    u1 = u + dt*k1
    h.prove_eq(n, u + dt/2*(k1 + y.rhs(u1, u1, s[1])), 'each stage uses the forcing of its time' + w)


PL = {'ksp_type': 'preonly', 'pc_type': 'lu', 'mat_type': 'aij'}


def mk_heun(y, dt, o):
    return ti.SSPRK22ALE(y.eq, y.u, y.f, dt, opts(params=PL), y.bnd)


ck.harness('SSPRK22ALE', run_two(mk_heun, r_heun, lambda h, t, dt: [t, t + dt]))


def picard_flags(h):
    """Crank-Nicolson inside a Picard loop: the old state is taken once, the old fields are updated after the last iteration"""
    with SymFD(h, modules=MODS, affine='full') as S:
        y = System(h, S, None)
        dt = step_dt(h, 'dt')
        th = h.real('theta', lo=Fr(1, 2), hi=1)
        T = ti.CrankNicolson(y.eq, y.u, y.f, dt, opts(th if h.symbolic else float(th)), y.bnd)
        T.initialize(y.u)
        t = h.real('t', lo=-10**6, hi=10**9)
        u = y.u0
        for st in range(2):
            before = y.s
            p = 3
            for i in range(p):
                n0 = len(y.times)
                T.advance_picard(t, y.forcing, update_lagged=i == 0, update_fields=i == p - 1)
                h.prove(len(y.times) == n0 + 1, 'one update per iteration')
                h.prove_eq(y.times[-1], t + dt, f'update time, iteration {i}')
                h.prove_eq(y.value() - u, dt*(th*y.rhs(y.value(), 0, y.s) + (1 - th)*y.rhs(u, 0, before)),
                           f'iteration {i} of step {st + 1} starts from the old state and old fields')
            u = S.cut(y.u, f'w{st}')[0]


ck.harness('CrankNicolson.advance_picard', picard_flags)


def leapfrog(h):
    with SymFD(h, modules=MODS, affine='full') as S:
        y = System(h, S, None)
        dt = step_dt(h, 'dt')
        T = ti.LeapFrogAM3(y.eq, y.u, y.f, dt, opts(params=PL), y.bnd)
        T.initialize(y.u)
        t = h.real('t', lo=-10**6, hi=10**9)
        T.advance(t, y.forcing)
        h.prove(len(y.times) == 1, 'one update')
        h.prove_eq(y.times[0], t + dt, 'update time')


ck.harness('LeapFrogAM3', leapfrog)


def none(cls, name):
    """without a callback nothing is called and the step is the same as with constant forcing"""
    def run(h):
        with SymFD(h, modules=MODS, affine='full') as S:
            y, z = System(h, S, None), System(h, S, None)
            dt = step_dt(h, 'dt')
            out = []
            for q, cb in ((y, None), (z, lambda t: None)):
                T = cls(q.eq, q.u, q.f, dt, opts(params=PL) if cls in (ti.SSPRK22ALE, ti.LeapFrogAM3) else opts(), q.bnd)
                T.initialize(q.u)
                T.advance(0.0, cb) if cb else T.advance(0.0)
                out.append(q.value())
            h.prove_eq(out[0], out[1], 'same step')
    return run


for cls in (ti.ForwardEuler, ti.CrankNicolson, rk.SSPRK33, rk.ERKLPUM2, rk.DIRK22, rk.DIRK22UForm, ti.SSPRK22ALE, ti.LeapFrogAM3):
    ck.harness(f'no-callback[{cls.__name__}]', none(cls, cls.__name__), validate=False)
ck.finish()
