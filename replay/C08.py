import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from integ import *
import warnings
warnings.simplefilter('ignore')


def reference(f, x, dt, tol, shape, f0=None):
    """-> (new state, proposed step, taken step, rejected steps, last stage)"""
    facmax, rej = 2.0, []
    while True:
        new, k = rk(f, x, dt, BS5_A, BS5_b)
        err = sum((dt*(a-b)*q for a, b, q in zip(BS5_b, BS5_bhat, k)), 0*x)
        sc = tol + np.maximum(abs(x), abs(new))*tol
        est = max(np.sqrt(np.sum(abs(err[i]/sc[i])**2)) for i in range(len(x)))/np.sqrt(np.prod(shape))
        fac = min(facmax, max(0.01, 0.8*(1/est)**0.2 if est else np.inf))
        if est <= 1:
            return new, dt*fac, dt, rej
        rej.append(dt)
        facmax = 1.0
        dt = dt*fac


def run(R, solver, mode, t0, scale, tol, dt, steps=19, push=1.):
    dim = 2 if solver.endswith('2D') else 3
    kw = dict(N=[6, 4, 8][:dim], L=[2*np.pi, 4*np.pi, 3.0][:dim])
    if solver == 'MHD':
        kw['L'] = [2*np.pi]*3
    s, c = make(solver, '', 'double', integrator='BS5_adaptive', tstep=t0, TOL=tol, dt=dt, **kw)
    F = F_(mode, scale)
    s.ComputeRHS = F
    rng = np.random.default_rng(SEED)
    told, fu0 = [], []

    def cb(context):
        if context.get('is_step_rejected_callback', False):
            told.append(context.dt_rejected)
            context.is_step_rejected_callback = False
        else:
            fu0.append(np.array(context.fu0))
    s.additional_callback = cb
    step = s.getintegrator(c.dU, c.u, s, c)
    c.u[:] = rng.standard_normal(c.u.shape) + 1j*rng.standard_normal(c.u.shape)
    name = 'BS5_adaptive %s rhs %s tstep0=%d scale=%g TOL=%g dt=%g' % (solver, mode, t0, scale, tol, dt)
    nrej = 0
    for k in range(steps):
        s.params.tstep = t0 + k
        x = np.array(c.u)
        d = s.params.dt
        del told[:], fu0[:]
        F.n = 0
        want, nxt, took, rej = reference(F.f, x, d, tol, c.T.shape(True))
        r = step()
        nrej += len(rej)
        R.close('%s: state after step %d' % (name, k), H.relerr(np, c.u, want), 1e-9)
        R.close('%s: step taken in step %d' % (name, k), abs(r[2]-took)/took, 1e-6)
        R.close('%s: step proposed by step %d' % (name, k), abs(r[1]-nxt)/nxt, 1e-6)
        R.check('%s: rejections reported in step %d' % (name, k), len(told) == len(rej) and np.allclose(told, rej, rtol=1e-6), got=told, want=rej)
        R.check('%s: evaluations in step %d' % (name, k), F.n == 7*(len(rej)+1) + (1+len(rej) if k == 0 else 0), got=F.n)
        R.check('%s: callback right-hand side in step %d' % (name, k), all(H.relerr(np, a, F.f(x)) < 1e-12 for a in fu0) and len(fu0) == len(rej)+1)
        R.check('%s: advances in place' % name, np.shares_memory(np.asarray(r[0]), np.asarray(c.u)))
        s.params.dt = r[1]*(push if k % 3 or push == 1. else 1.)
    return nrej


R = H.Report('C08')
H.enter_scratch(); H.use()
n = 0
for solver in ('NS', 'NS2D', 'MHD'):
    for mode in ('in place', 'new array'):
        for t0 in (0, 5):
            for scale, tol, dt in ((1., 1e-6, .01), (6., 1e-7, 3.), (40., 1e-3, .5), (0., 1e-5, .1), (1., 1e-6, .05), (4., 1e-13, 60.)):
                n += guarded(R, solver, run, R, solver, mode, t0, scale, tol, dt, push=1. if scale in (0., 6., 4.) else 3.) or 0
if n <= 20:
    R.errors.append('the sample contains only %d rejected steps' % n)
R.done()
