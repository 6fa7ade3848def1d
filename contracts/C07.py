"""Fixed-step integrators: the update of the scheme for an arbitrary right-hand-side function."""
from .integ import *

META = dict(
    functions=['spectralDNS.maths.integrators.' + f for f in ('getintegrator', 'RK4', 'ForwardEuler', 'AB2', 'adaptiveRK (adaptive off)')]
    + ['optimization/cython_integrators.in, numba_module.py: RK4, ForwardEuler, AB2'],
    trusted=TRUSTED_FFT[2:3] + TRUSTED_ENGINE + ['optimizer decorator resolved as in the real import; Cython/Numba text read as Python (see C06)'],
    assumptions=['the right-hand side is any function of its arguments; it returns its array argument or a new array',
                 'Adams-Bashforth: the step size is the same from step to step (the scheme is not defined otherwise)',
                 'the error-norm divisors of the shared Runge-Kutta driver are nonzero'],
    bounded='real integrators of every backend on a nonlinear right-hand side against the textbook formulas, small meshes, 2D/3D, both precisions, restarts')

SOLVERS = (('NS', 3), ('NS2D', 2), ('MHD', 6), ('VV', 3), ('Bq2D', 3))


def prove(V):
    for opt in ('', 'cython', 'numba', 'pythran'):
        for solver, n in SOLVERS:
            if opt and solver not in ('NS', 'NS2D', 'MHD'):
                continue
            for mode in ('in place', 'new array') + (('cache',) if V.tier == 'thorough' or not opt else ()):
                for t0 in (0, 'n0'):
                    lab = '%s%s, right-hand side %s, first step %s' % (solver, ' ' + opt if opt else '', mode, t0)
                    for sch in ('RK4', 'ForwardEuler', 'AB2'):
                        V.case('%s %s' % (sch, lab), lambda: steps(V, solver, sch, opt, mode, t0))
    for solver in ('NS', 'NS2D', 'MHD'):
        for mode in ('in place', 'new array'):
            for t0 in (0, 'n0'):
                V.case('BS5_fixed %s, right-hand side %s, first step %s' % (solver, mode, t0), lambda: bs5(V, solver, mode, t0))
    for prec in ('single',):
        for opt in ('', 'cython', 'numba'):
            for sch in ('RK4', 'ForwardEuler', 'AB2'):
                V.case('%s NS %s single precision' % (sch, opt), lambda: steps(V, 'NS', sch, opt, 'in place', 0, prec))


def tsteps(t0):
    if t0 == 0:
        return 0, [0, 1, poly.atom('tstep', 'tstep', kind='int', info=('ge1',))+1]
    n0 = poly.atom('n0', 'n0', kind='int', info=('ge1',))
    return n0, [n0, n0+1, n0+1+poly.atom('tstep', 'tstep', kind='int', info=('ge1',))]


def stages(V, lab, calls, want):
    V.true(lab + ': %d evaluations of the right-hand side' % len(want), len(calls) == len(want))
    for i, (c, w) in enumerate(zip(calls, want)):
        V.eq('%s: stage %d evaluated at the stage state' % (lab, i), c[0], w)
        V.true('%s: stage %d gets the solver and the context' % (lab, i), c[2] and c[3])


def steps(V, solver, sch, opt, mode, t0, precision='double'):
    t0, ts = tsteps(t0)
    S = setup(V, solver, sch, opt, mode, precision, tstep0=t0)
    u = S.u
    step = S.s.getintegrator(S.c.dU, u, S.s, S.c)
    prev = None
    for k, t in enumerate(ts):
        dt = poly.atom('dt%d' % (0 if sch == 'AB2' else k), 'dt%d' % k, positive=True)
        S.params.dt = dt
        S.params.tstep = t
        x = SArr.named('state%d' % k, u.grid, u.comps, 'complex128')
        u[...] = x                       # the user may change the solution between steps
        arr.garbage(S.c.dU, 'rhs')       # ... and use the right-hand-side array
        S.rhs.calls.clear()
        S.rhs.name = 'f%d_' % k
        r = step()
        lab = 'step %d' % k
        f = [c[1] for c in S.rhs.calls]
        need = 4 if sch == 'RK4' else 1
        if len(f) < need:
            V.true(lab + ': the right-hand side is evaluated', False)
            return
        if sch == 'RK4':
            at = [x, x + f[0]*(dt*rat('1/2')), x + f[1]*(dt*rat('1/2')), x + f[2]*dt]
            new = x + (f[0] + f[1]*2 + f[2]*2 + f[3])*(dt*rat('1/6'))
        elif sch == 'ForwardEuler' or prev is None:
            at, new = [x], x + f[0]*dt
        else:
            at, new = [x], x + (f[0]*rat('3/2') - prev*rat('1/2'))*dt
        stages(V, lab, S.rhs.calls, at)
        V.eq(lab + ': new state', u, new)
        V.true(lab + ': returns state, next and taken step', len(r) == 3)
        V.same_object(lab + ': the state is advanced in place', r[0], u)
        V.eq(lab + ': next step size', r[1], dt)
        V.eq(lab + ': taken step size', r[2], dt)
        V.eq(lab + ': configured step size untouched', Poly.of(S.params.dt), dt)
        prev = f[0]


def bs5(V, solver, mode, t0):
    t0, _ = tsteps(t0)
    S = setup(V, solver, 'BS5_fixed', '', mode, tstep0=t0)
    u = S.u
    cb = []

    def callback(context):
        cb.append(context.fu0.copy())
    S.s.additional_callback = callback
    step = S.s.getintegrator(S.c.dU, u, S.s, S.c)
    last = None
    A = [[rat(c) for c in r] for r in BS5_A]
    b = [rat(c) for c in BS5_b]
    # the driver's position in its ring of eight stages repeats after eight steps; the state is arbitrary at each step
    for k in range(10):
        dt = poly.atom('dt%d' % k, 'dt%d' % k, positive=True)
        S.params.dt = dt
        S.params.tstep = t0 + k
        x = SArr.named('state%d' % k, u.grid, u.comps, 'complex128')
        u[...] = x
        arr.garbage(S.c.dU, 'rhs')
        S.rhs.calls.clear()
        S.rhs.name = 'f%d_' % k
        del cb[:]
        r = step()
        lab = 'step %d' % k
        f = [c[1] for c in S.rhs.calls]
        if last is not None:
            f = [last] + f
        if len(f) != 8:
            V.true(lab + ': %d evaluations' % (8 - (last is not None)), False)
            return

        def state(co):
            y = x
            for c, g in zip(co, f):
                if c.t:
                    y = y + g*(dt*c)
            return y
        stages(V, lab, S.rhs.calls, [state(A[i]) for i in range(0 if last is None else 1, 8)])
        V.eq(lab + ': new state', u, state(b))
        V.same_object(lab + ': the state is advanced in place', r[0], u)
        V.eq(lab + ': taken step size', r[2], dt)
        V.eq(lab + ': next step size', r[1], dt)
        V.true(lab + ': one callback', len(cb) == 1)
        if cb:
            V.eq(lab + ': the callback sees the right-hand side of the old state', cb[0], f[0])
        last = f[7]
