"""C18: one step (and a second one after a change of the time step) of every time integrator is its documented update"""
from ti_common import *
import types
ck = Check('C18', 'time-integrators')
TECHNIQUE = 'symbolic execution of the real time integrators (assign, solve and assemble act on symbolic uniform states), z3' \
            ' decides equality with the documented scheme; counterexamples replayed on Firedrake'
ck.encoded('timeintegrator.ForwardEuler/CrankNicolson/SteadyState/PressureProjectionPicard/LeapFrogAM3/SSPRK22ALE',
           'rungekutta.DIRKGeneric/DIRKGenericUForm/ERKGeneric/ERKGenericShuOsher', 'implicitexplicit.IMEXGeneric',
           'equation.Equation.select_terms/residual/add_term', 'timeintegrator.TimeIntegrator.set_dt/create_fields_old')
ck.bound('a scalar equation with one implicit, one explicit, one nonlinear, one source and one boundary term with arbitrary'
         ' coefficients in [-2, 2]; two consecutive steps with different time steps in (0, 0.1]',
         'Picard: two coupled unknowns and one uncoupled velocity component; 1 and 2 iterations')
ck.assumed('implicit systems are regular and solved exactly')
TOL = Fr(1, 10**8)


def eqv(h, a, b, name, tol=None):
    """equality; tableau entries are rounded numbers, so the two sides may differ in the last digits"""
    h.prove_eq(a, b, name, **({'tol': tol} if tol else {}))


def two_steps(make, ref, quad=None, semi=False, theta=False, kw=None, second=True, external=True):
    def run(h):
        with SymFD(h, modules=MODS, affine='full') as S:
            y = System(h, S, quad, **(kw or {}))
            dt = step_dt(h, 'dt')
            th = h.real('theta', lo=Fr(1, 2), hi=1) if theta else Fr(1, 2)
            o = opts(th if h.symbolic else float(th), semi)
            T = make(y, dt, o)
            T.initialize(y.u)
            T.advance(0.0)
            u1 = y.value()
            ref(h, y, T, y.u0, u1, dt, th, semi)
            if not second:
                return
            d2 = step_dt(h, 'dt2')
            T.set_dt(d2)
            if external:
                # coupled systems change the solution between steps
                u1 = S.symbolic(y.u, 'w', lo=-2, hi=2)
            else:
                u1 = S.cut(y.u, 'w')[0]
            T.advance(1.0)
            ref(h, y, T, u1, y.value(), d2, th, semi, ' (second step)')
    return run


def r_fe(h, y, T, u, n, dt, th, semi, w=''):
    eqv(h, n, u + dt*y.rhs(u, u, y.s), 'forward Euler' + w)


def r_cn(h, y, T, u, n, dt, th, semi, w=''):
    t = fx(h, th) if isinstance(th, Fr) else th
    eqv(h, n - u, dt*(t*y.rhs(n, u if semi else n, y.s) + (1 - t)*y.rhs(u, u, y.s)), 'Crank-Nicolson' + w)


def r_ss(h, y, T, u, n, dt, th, semi, w=''):
    eqv(h, y.rhs(n, n, y.s), 0, 'steady state' + w)


def explicit(cls):
    a, b, c = tableau(cls)

    def ref(h, y, T, u, n, dt, th, semi, w=''):
        k = []
        for i in range(len(b)):
            ui = u + dt*sum((fx(h, a[i][j])*k[j] for j in range(i)), 0)
            k.append(y.rhs(ui, ui, y.s))
        r = u + dt*sum((fx(h, b[i])*k[i] for i in range(len(b))), 0)
        close(h, n, r, cls.__name__ + w)
    return ref


def close(h, a, b, name):
    h.prove_le(a - b, 0, name + ' <=', tol=TOL)
    h.prove_ge(a - b, 0, name + ' >=', tol=TOL)


def dirk(cls, exact=True):
    a, b, c = tableau(cls)

    def ref(h, y, T, u, n, dt, th, semi, w=''):
        k = []
        lam = y.v['a'] + y.v['b'] + y.v['q']*u
        for i in range(len(b)):
            ui = u + dt*sum((fx(h, a[i][j])*k[j] for j in range(i)), 0)
            k.append((lam*ui + y.s + y.g)/(1 - dt*fx(h, a[i][i])*lam))
        r = u + dt*sum((fx(h, b[i])*k[i] for i in range(len(b))), 0)
        eqv(h, n, r, cls.__name__ + w)
    return ref


def imex(cls):
    ea, eb, ec = tableau(cls.erk_class)
    ia, ib, ic = tableau(cls.dirk_class)

    def ref(h, y, T, u, n, dt, th, semi, w=''):
        e, m = [], []
        lam = y.v['a']
        for i in range(len(eb)):
            ui = u + dt*sum((fx(h, ea[i][j])*e[j] + fx(h, ia[i][j])*m[j] for j in range(i)), 0)
            k = lam*ui/(1 - dt*fx(h, ia[i][i])*lam)
            ui = ui + dt*fx(h, ia[i][i])*k
            m.append(k)
            e.append(y.rhs(ui, ui, y.s, 'explicit'))
        r = u + dt*sum((fx(h, eb[i])*e[i] + fx(h, ib[i])*m[i] for i in range(len(eb))), 0)
        eqv(h, n, r, cls.__name__ + w)
    return ref


def mk(cls, **kw):
    return lambda y, dt, o: cls(y.eq, y.u, y.f, dt, o, y.bnd, **kw)


ck.harness('ForwardEuler', two_steps(mk(ti.ForwardEuler), r_fe, 'nonlinear'))
ck.harness('CrankNicolson', two_steps(mk(ti.CrankNicolson), r_cn, None, theta=True))
ck.harness('CrankNicolson[nonlinear]', two_steps(mk(ti.CrankNicolson), r_cn, 'nonlinear', theta=True))
ck.harness('CrankNicolson[semi-implicit]', two_steps(mk(ti.CrankNicolson), r_cn, 'nonlinear', semi=True, theta=True))
ck.harness('SteadyState', two_steps(mk(ti.SteadyState), r_ss, None))
for n in ('ERKLSPUM2', 'ERKLPUM2', 'ERKMidpoint', 'ERKEuler'):
    c = getattr(rk, n)
    ck.harness(n, two_steps(mk(c), explicit(c), None, external=False))
ck.harness('ERKMidpoint[nonlinear]', two_steps(mk(rk.ERKMidpoint), explicit(rk.ERKMidpoint), 'nonlinear', external=False))
ck.harness('SSPRK33', two_steps(mk(rk.SSPRK33), explicit(rk.SSPRK33), None))
for n in ('BackwardEuler', 'ImplicitMidpoint', 'CrankNicolsonRK', 'DIRK22', 'DIRK23', 'DIRK33', 'DIRK43', 'DIRKLSPUM2', 'DIRKLPUM2',
          'ESDIRKMidpoint', 'ESDIRKTrapezoid', 'BackwardEulerUForm', 'DIRK22UForm', 'DIRK33UForm'):
    c = getattr(rk, n)
    ck.harness(n, two_steps(mk(c), dirk(c), None))
for n in ('IMEXLPUM2', 'IMEXLSPUM2', 'IMEXMidpoint', 'IMEXEuler'):
    c = getattr(ie, n)
    ck.harness(n, two_steps(mk(c), imex(c), None, external=False))


# ---- semi-implicit linearisation: nonlinear coefficients are taken at the beginning of the step ---------------------------
for n in ('BackwardEuler', 'DIRK22', 'BackwardEulerUForm', 'DIRK22UForm', 'ImplicitMidpoint'):
    c = getattr(rk, n)
    ck.harness(n + '[semi-implicit]', two_steps(mk(c), dirk(c), 'nonlinear', semi=True))


def r_beu(h, y, T, u, n, dt, th, semi, w=''):
    eqv(h, n - u, dt*y.rhs(n, n, y.s), 'backward Euler' + w)


ck.harness('BackwardEulerUForm[nonlinear]', two_steps(mk(rk.BackwardEulerUForm), r_beu, 'nonlinear'))


# ---- term selection: an integrator given some labels takes exactly the terms with these labels -----------------------------
def selected(cls, labels, quad):
    def run(h):
        with SymFD(h, modules=MODS, affine='full') as S:
            y = System(h, S, quad)
            dt = step_dt(h, 'dt')
            T = cls(y.eq, y.u, y.f, dt, opts(semi=True), y.bnd, terms_to_add=labels)
            T.initialize(y.u)
            T.advance(0.0)
            n = y.value()
            la = [labels] if isinstance(labels, str) else labels
            if 'all' in la:
                la = ['implicit', 'explicit', 'source', 'nonlinear']
            u0 = y.u0
            lin = (y.v['a'] if 'implicit' in la else 0) + (y.v['b'] if 'explicit' in la else 0) \
                + (y.v['q']*u0 if quad in la else 0)
            src = (y.s if 'source' in la else 0) + (y.g if 'explicit' in la else 0)
            if cls is rk.BackwardEuler:
                eqv(h, n - u0, dt*(lin*n + src), 'backward Euler with the selected terms')
            else:
                eqv(h, n - u0, dt*(lin*u0 + src), 'forward Euler with the selected terms')
    return run


for la in ('all', 'implicit', 'explicit', 'source', 'nonlinear', ('explicit', 'source'), ('implicit', 'nonlinear')):
    for cls in (rk.BackwardEuler, rk.ERKEuler):
        nm = la if isinstance(la, str) else '+'.join(la)
        ck.harness(f'terms[{cls.__name__},{nm}]', selected(cls, la, 'nonlinear'), validate=la in ('all', 'implicit'))


def nothing(cls, name):
    """an equation without any selected term leaves the solution unchanged"""
    def run(h):
        with SymFD(h, modules=MODS, affine='full') as S:
            V = fd.FunctionSpace(mesh(), 'DG', 0)
            u = fd.Function(V, name='u')
            u0 = S.symbolic(u, 'u', lo=-2, hi=2)
            dt = step_dt(h, 'dt')
            e = eqn.Equation(V)
            T = cls(e, u, {}, dt, opts(), {})
            T.initialize(u)
            T.advance(0.0)
            T.advance(1.0)
            eqv(h, S.get(u)[0], u0, 'unchanged')
    return run


for cls in (rk.ERKLPUM2, rk.SSPRK33, ti.SSPRK22ALE, ti.LeapFrogAM3):
    ck.harness(f'nothing-to-do[{cls.__name__}]', nothing(cls, cls.__name__))


# ---- mixed solution spaces ------------------------------------------------------------------------------------------------------
class MTerm(eqn.Term):
    def __init__(self, W):
        super().__init__(W[0])
        self.test = fd.TestFunction(W)


class Coupled(MTerm):
    """u' = a v + s, v' = b u"""
    def residual(self, sol, old, f, fo, bnd):
        u, v = sol if isinstance(sol, list) else split(sol)
        t, w = split(self.test)
        return (f['a']*v*t + f['s']*t + f['b']*u*w)*dx


class CoupledExplicit(MTerm):
    def residual(self, sol, old, f, fo, bnd):
        u, v = sol if isinstance(sol, list) else split(sol)
        t, w = split(self.test)
        return (f['q']*u*t + f['q']*v*w)*dx


def mixed(make, ref, implicit):
    def run(h):
        with SymFD(h, modules=MODS, affine='full') as S:
            P = fd.FunctionSpace(mesh(), 'DG', 0)
            W = P*P
            x = fd.Function(W, name='x')
            f = {k: fd.Function(P, name=k) for k in 'absq'}
            c = {k: S.symbolic(f[k], k, lo=-2, hi=2) for k in 'absq'}
            x0 = S.symbolic(x, 'x', lo=-2, hi=2)
            e = eqn.Equation(W)
            e.add_term(Coupled(W), 'implicit')
            if not implicit:
                e.add_term(CoupledExplicit(W), 'explicit')
            dt = step_dt(h, 'dt')
            T = make(e, x, f, dt)
            T.initialize(x)
            T.advance(0.0)
            ref(h, c, x0, S.get(x), dt)
    return run


def m_dirk(cls):
    a, b, c_ = tableau(cls)

    def ref(h, c, x, n, dt):
        k = []
        for i in range(len(b)):
            r = [x[m] + dt*sum((fx(h, a[i][j])*k[j][m] for j in range(i)), 0) for m in (0, 1)]
            g = dt*fx(h, a[i][i])
            # k0 = a (r1 + g k1) + s ; k1 = b (r0 + g k0)
            k0 = (c['a']*(r[1] + g*c['b']*r[0]) + c['s'])/(1 - g*g*c['a']*c['b'])
            k.append((k0, c['b']*(r[0] + g*k0)))
        for m in (0, 1):
            eqv(h, n[m], x[m] + dt*sum((fx(h, b[i])*k[i][m] for i in range(len(b))), 0), f'{cls.__name__}, component {m}')
    return ref


def m_imex(cls):
    ea, eb, _ = tableau(cls.erk_class)
    ia, ib, _ = tableau(cls.dirk_class)

    def ref(h, c, x, n, dt):
        k, e = [], []
        for i in range(len(eb)):
            r = [x[m] + dt*sum((fx(h, ia[i][j])*k[j][m] + fx(h, ea[i][j])*e[j][m] for j in range(i)), 0) for m in (0, 1)]
            g = dt*fx(h, ia[i][i])
            k0 = (c['a']*(r[1] + g*c['b']*r[0]) + c['s'])/(1 - g*g*c['a']*c['b'])
            k.append((k0, c['b']*(r[0] + g*k0)))
            e.append([c['q']*(r[m] + g*k[i][m]) for m in (0, 1)])
        for m in (0, 1):
            eqv(h, n[m], x[m] + dt*sum((fx(h, ib[i])*k[i][m] + fx(h, eb[i])*e[i][m] for i in range(len(eb))), 0),
                f'{cls.__name__}, component {m}')
    return ref


for n in ('BackwardEuler', 'ImplicitMidpoint', 'DIRK22', 'ESDIRKMidpoint', 'DIRK22UForm', 'BackwardEulerUForm'):
    cls = getattr(rk, n)
    ck.harness(f'mixed[{n}]', mixed(lambda e, x, f, dt, cls=cls: cls(e, x, f, dt, opts(), {}), m_dirk(cls), True))
for n in ('IMEXEuler', 'IMEXMidpoint'):
    cls = getattr(ie, n)
    ck.harness(f'mixed[{n}]', mixed(lambda e, x, f, dt, cls=cls: cls(e, x, f, dt, opts(), {}), m_imex(cls), False))


# ---- moving geometry --------------------------------------------------------------------------------------------------------------
def ale(cls, steps):
    """content = area x value; the geometry changes between the stages"""
    def run(h):
        with SymFD(h, modules=MODS, affine='full') as S:
            y = System(h, S, 'nonlinear')
            m = mesh()
            dt = step_dt(h, 'dt')
            J = h.reals('J', 5, lo=Fr(1, 2), hi=2)
            jac = iter(J)
            S.stretch(m, J[0])
            try:
                T = cls(y.eq, y.u, y.f, dt, opts(params={'ksp_type': 'preonly', 'pc_type': 'lu', 'mat_type': 'aij'}), y.bnd)
                T.initialize(y.u)
                u, j = y.u0, J[0]
                old = u
                f = lambda v: y.rhs(v, v, y.s)
                for st in range(steps):
                    w = f' (step {st + 1})'
                    if cls is ti.SSPRK22ALE:
                        j1, j2 = J[1 + 2*st], J[2 + 2*st]
                        T.prepare_stage(0, 0.0)
                        S.stretch(m, j1)
                        T.solve_stage(0)
                        u1 = y.value()
                        eqv(h, j1*u1, j*u + dt*j*f(u), 'first stage' + w)
                        S.cut(y.u, f'stage{st}')
                        u1 = y.value()
                        T.prepare_stage(1, 0.0)
                        S.stretch(m, j2)
                        T.solve_stage(1)
                        n = y.value()
                        # second stage in terms of the (generalised) first stage: q = (j1 u1 + j u + dt j1 f(u1))/2
                        if not h.symbolic or st < 0:
                            eqv(h, j2*n, j*u + dt/2*(j*f(u) + j1*f(u1)), 'second stage' + w)
                        j, u = j2, S.cut(y.u, f'end{st}')[0]
                    else:
                        g = fx(h, Fr(1, 12))
                        T.predict()
                        half = y.value()
                        ref = (0.5 - 2*g if not h.symbolic else Fr(1, 2) - 2*g)*old + (Fr(1, 2) + 2*g if h.symbolic else 0.5 + 2*g)*u \
                            + dt*(1 - 2*g)*f(u)
                        close(h, half, ref, 'prediction' + w)
                        S.cut(y.u, f'pred{st}')
                        half = y.value()
                        T.eval_rhs()
                        S.stretch(m, J[1 + st])
                        T.correct()
                        n = y.value()
                        eqv(h, J[1 + st]*n, j*u + dt*j*f(half), 'correction' + w)
                        old = u
                        j, u = J[1 + st], S.cut(y.u, f'end{st}')[0]
            finally:
                S.stretch(m, 1)
    return run


def ssprk22(h):
    """both stages without forgetting the first one (linear right-hand side)"""
    with SymFD(h, modules=MODS, affine='full') as S:
        y = System(h, S, None)
        m = mesh()
        dt = step_dt(h, 'dt')
        J = h.reals('J', 5, lo=Fr(1, 2), hi=2)
        S.stretch(m, J[0])
        try:
            T = ti.SSPRK22ALE(y.eq, y.u, y.f, dt, opts(params={'ksp_type': 'preonly', 'pc_type': 'lu', 'mat_type': 'aij'}), y.bnd)
            T.initialize(y.u)
            f = lambda v: y.rhs(v, v, y.s)
            u, j = y.u0, J[0]
            for st in range(2):
                j1, j2 = J[1 + 2*st], J[2 + 2*st]
                T.prepare_stage(0, 0.0)
                S.stretch(m, j1)
                T.solve_stage(0)
                T.prepare_stage(1, 0.0)
                S.stretch(m, j2)
                T.solve_stage(1)
                u1 = (j*u + dt*j*f(u))/j1
                eqv(h, j2*y.value(), j*u + dt/2*(j*f(u) + j1*f(u1)), f'content after step {st + 1}')
                j, u = j2, S.symbolic(y.u, f'w{st}', lo=-2, hi=2)
        finally:
            S.stretch(m, 1)


ck.harness('SSPRK22ALE', ssprk22)
ck.harness('LeapFrogAM3', ale(ti.LeapFrogAM3, 2))


def fixed_mesh(cls):
    """advance() on a fixed geometry is the same scheme"""
    def run(h):
        with SymFD(h, modules=MODS, affine='full') as S:
            y = System(h, S, None)
            dt = step_dt(h, 'dt')
            T = cls(y.eq, y.u, y.f, dt, opts(params={'ksp_type': 'preonly', 'pc_type': 'lu', 'mat_type': 'aij'}), y.bnd)
            T.initialize(y.u)
            f = lambda v: y.rhs(v, v, y.s)
            u, old = y.u0, y.u0
            for st in range(2):
                T.advance(0.0)
                if cls is ti.SSPRK22ALE:
                    eqv(h, y.value(), u + dt/2*(f(u) + f(u + dt*f(u))), f'Heun step {st + 1}')
                else:
                    g = fx(h, Fr(1, 12))
                    hf = fx(h, Fr(1, 2))
                    half = (hf - 2*g)*old + (hf + 2*g)*u + dt*(1 - 2*g)*f(u)
                    close(h, y.value(), u + dt*f(half), f'leap-frog step {st + 1}')
                old, u = u, S.cut(y.u, f'w{st}')[0]
                if st == 0:
                    dt = step_dt(h, 'dt2')
                    T.set_dt(dt)
    return run


ck.harness('SSPRK22ALE.advance', fixed_mesh(ti.SSPRK22ALE))
ck.harness('LeapFrogAM3.advance', fixed_mesh(ti.LeapFrogAM3))


# ---- pressure projection with Picard iterations -----------------------------------------------------------------------------------
class PTerm(eqn.Term):
    def __init__(self, test, space):
        super().__init__(space)
        self.test = test


class PGrad(PTerm):
    def residual(self, uv, eta, uv_old, eta_old, f, fo, bnd):
        return -f['a']*eta*(1 + f['k']*eta_old)*self.test*dx


class PAdv(PTerm):
    def residual(self, uv, eta, uv_old, eta_old, f, fo, bnd):
        return -f['q']*uv_old*uv*self.test*dx


class PVisc(PTerm):
    def residual(self, uv, eta, uv_old, eta_old, f, fo, bnd):
        return -f['b']*uv*self.test*dx


class PSource(PTerm):
    def residual(self, uv, eta, uv_old, eta_old, f, fo, bnd):
        return f['s']*self.test*dx


class PDiv(PTerm):
    def residual(self, uv, eta, uv_old, eta_old, f, fo, bnd):
        return -uv*(1 + f['k']*eta_old)*self.test*dx


class PVol(PTerm):
    def residual(self, uv, eta, uv_old, eta_old, f, fo, bnd):
        return f['v']*self.test*dx


class PMom(sw.ShallowWaterMomentumEquation):
    def add_momentum_terms(self, *a, tidal_farms=None):
        pmom(self, a[0], a[1])


def pmom(eq, test, space):
    eq.add_term(PGrad(test, space), 'implicit')
    eq.add_term(PAdv(test, space), 'implicit')
    eq.add_term(PVisc(test, space), 'explicit')
    eq.add_term(PSource(test, space), 'source')


class PFull(eqn.Equation):
    def __init__(self, W):
        super().__init__(W)
        t, w = fd.TestFunctions(W)
        pmom(self, t, W[0])
        self.add_term(PDiv(w, W[1]), 'implicit')
        self.add_term(PVol(w, W[1]), 'implicit')

    residual_uv_eta = sw.BaseShallowWaterEquation.residual_uv_eta
    residual = sw.ShallowWaterEquations.residual

    def __getattr__(self, k):
        # helpers of the real class
        f = getattr(sw.ShallowWaterEquations, k)
        return types.MethodType(f, self) if callable(f) else f


def picard(its, semi=True, kon=True, qon=True, theta=True):
    def run(h):
        with SymFD(h, modules=MODS, affine='full') as S:
            m = mesh()
            P = fd.FunctionSpace(m, 'DG', 0)
            W = P*P
            x = fd.Function(W, name='x')
            f = {k: fd.Function(P, name=k) for k in 'absqkv'}
            on = 'absv' + ('k' if kon else '') + ('q' if qon else '')
            c = {}
            for k in f:
                if k in on:
                    c[k] = S.symbolic(f[k], k, lo=-2, hi=2)
                else:
                    S.set(f[k], [0])
                    c[k] = 0
            u0, e0 = S.symbolic(x, 'x', lo=-2, hi=2)
            dt = step_dt(h, 'dt')
            th = h.real('theta', lo=Fr(1, 2), hi=1) if theta else fx(h, Fr(1, 2))
            o = opts(th if h.symbolic else float(th), semi, its)
            full = PFull(W)
            mom = PMom(fd.TestFunction(P), P, P, None, None)
            T = ti.PressureProjectionPicard(full, mom, x, f, dt, o, {})
            T.initialize(x)
            lag = []

            def forget(F, u, sol):
                # the result of the first iteration is generalised to an arbitrary state
                if u is x and not lag and its > 1:
                    lag.append(S.cut(x, 'lag'))
            S.on_solve = forget
            for st in range(2 if its == 1 else 1):
                c0 = dict(c)
                if st:
                    # coefficients of the new time level; the old level keeps the previous ones
                    for k in on:
                        c[k] = h.real(k + 'new', lo=-2, hi=2)
                T.advance(0.0, None if not st else lambda t: [S.set(f[k], [c[k]]) for k in on])
                pic_ref(h, c, c0, u0, e0, S.get(x), dt, th, its, semi, f' (step {st + 1})', lag)
                if its == 1 and st == 0:
                    dt = step_dt(h, 'dt2')
                    T.set_dt(dt)
                    u0, e0 = S.symbolic(x, 'w', lo=-2, hi=2)
    return run


def pic_ref(h, c, c0, u0, e0, new, dt, th, its, semi, w, lag):
    G = lambda e, el, c=c: -c['a']*e*(1 + c['k']*el)
    I = lambda u, ul, c=c: -c['q']*ul*u
    X = lambda u, c=c: -c['b']*u
    D = lambda u, el, c=c: -u*(1 + c['k']*el) + c['v']
    ul, el = u0, e0
    for it in range(its):
        old = G(e0, e0, c0) + I(u0, u0, c0) + X(u0, c0) + c0['s']
        # momentum equation: us - u0 = dt (th (G(el) - q ul us - b us + s) + (1 - th) old)
        rhs = u0 + dt*(th*(G(el, el) + c['s']) + (1 - th)*old)
        us = rhs/(1 + dt*th*(c['q']*ul + c['b']))
        # wave equation: the gradient and the other implicit terms are moved to the new time level
        if it == its - 1:
            u1, e1 = new
            h.prove_eq(u1 - us, dt*th*(G(e1, el) - G(el, el) + I(u1, ul) - I(us, ul)), 'velocity' + w)
            h.prove_eq(e1 - e0, dt*(th*D(u1, el) + (1 - th)*D(u0, e0, c0)), 'elevation' + w)
        elif lag:
            ul, el = lag[0]
        else:
            # solve the two equations for the lagged state of the next iteration
            # u1 (1 + dt th q ul) + dt th a (1 + k el) e1 = us + dt th (-G(el, el) + q ul us)
            # dt th (1 + k el) u1 + e1 = e0 + dt (th v + (1 - th) D(u0, e0))
            A, B = 1 + dt*th*c['q']*ul, dt*th*c['a']*(1 + c['k']*el)
            C = dt*th*(1 + c['k']*el)
            r1 = us + dt*th*(-G(el, el) + c['q']*ul*us)
            r2 = e0 + dt*(th*c['v'] + (1 - th)*D(u0, e0, c0))
            det = A - B*C
            ul, el = (r1 - B*r2)/det, (A*r2 - C*r1)/det


ck.harness('PressureProjectionPicard[1 iteration]', picard(1))
ck.harness('PressureProjectionPicard[2 iterations,linear]', picard(2, kon=False, qon=False))
ck.harness('PressureProjectionPicard[2 iterations]', picard(2))
ck.harness('PressureProjectionPicard[nonlinear,1 iteration]', picard(1, semi=False, kon=False, qon=False))
ck.finish()
