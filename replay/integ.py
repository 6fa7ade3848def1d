"""The real integrators on a concrete non-linear right-hand side against textbook formulas (bounded)."""
from kern import *
from fractions import Fraction
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

BS5_A = [[], ['1/6'], ['2/27', '4/27'], ['183/1372', '-162/343', '1053/1372'], ['68/297', '-4/11', '42/143', '1960/3861'],
         ['597/22528', '81/352', '63099/585728', '58653/366080', '4617/20480'],
         ['174197/959244', '-30942/79937', '8152137/19744439', '666106/1039181', '-29421/29068', '482048/414219'],
         ['587/8064', '0', '4440339/15491840', '24353/124800', '387/44800', '2152/5985', '7267/94080']]
BS5_A = [[float(Fraction(x)) for x in r] for r in BS5_A]
BS5_b = BS5_A[7] + [0.]
BS5_bhat = [float(Fraction(x)) for x in ('2479/34992', '0', '123/416', '612941/3411720', '43/1440', '2272/6561', '79937/1113912', '3293/556956')]


class F_:
    """An autonomous non-linear right-hand side."""

    def __init__(self, mode, scale=1.0):
        self.mode, self.n, self.args, self.scale = mode, 0, [], scale

    def f(self, u):
        u = np.asarray(u)
        return self.scale*(-(0.3+0.8j)*u - 0.4*u/(1+np.abs(np.roll(u, 1, axis=0))) + 0.05)

    def __call__(self, rhs, u, solver, /, **context):
        self.n += 1
        self.args.append(np.array(u))
        v = self.f(u).astype(rhs.dtype)
        if self.mode == 'in place':
            rhs[:] = v
            return rhs
        if self.mode == 'cache':
            rhs[:] = 1e3
        out = rhs.copy()
        out[:] = v
        return out


def rk(f, u, dt, A, b):
    k = []
    for i in range(len(b)):
        y = u.copy()
        for j, a in enumerate(A[i]):
            y = y + dt*a*k[j]
        k.append(f(y))
    new = u.copy()
    for bi, ki in zip(b, k):
        new = new + dt*bi*ki
    return new, k


RK4 = ([[], [.5], [0, .5], [0, 0, 1.]], [1/6, 1/3, 1/3, 1/6])


def run_fixed(R, solver, sch, opt, mode, t0, precision='double', steps=4):
    dim = 2 if solver.endswith('2D') else 3
    kw = dict(N=[6, 4, 8][:dim], L=[2*np.pi, 4*np.pi, 3.0][:dim])
    if solver == 'MHD':
        kw['L'] = [2*np.pi]*3
    s, c = make(solver, opt, precision, integrator=sch, tstep=t0, **kw)
    F = F_(mode)
    s.ComputeRHS = F
    rng = np.random.default_rng(SEED)
    step = s.getintegrator(c.dU, c.u, s, c)
    prev, first = None, True
    tol = 2e-5 if precision == 'single' else 1e-12
    name = '%s %s %s %s rhs %s tstep0=%d' % (sch, solver, opt, precision, mode, t0)
    for k in range(steps):
        if k < 2 or sch != 'BS5_fixed':
            if not (sch == 'BS5_fixed' and k > 0):
                c.u[:] = rng.standard_normal(c.u.shape) + 1j*rng.standard_normal(c.u.shape)
        s.params.dt = 0.1 if sch == 'AB2' else 0.1 + 0.03*k
        dt = 0.1 if sch == 'AB2' else 0.1 + 0.03*k
        s.params.tstep = t0 + k
        if sch != 'BS5_fixed':
            c.dU[:] = 7.0
        x = np.array(c.u)
        F.n = 0
        r = step()
        if sch == 'RK4':
            want, n = rk(F.f, x, dt, *RK4)[0], 4
        elif sch == 'BS5_fixed':
            want, n = rk(F.f, x, dt, BS5_A, BS5_b)[0], 8 if k == 0 else 7
        else:
            f = F.f(x)
            want = x + dt*f if prev is None or sch == 'ForwardEuler' else x + dt*(1.5*f-0.5*prev)
            n = 1
            prev = f
        R.close('%s: state after step %d' % (name, k), H.relerr(np, c.u, want), tol)
        R.check('%s: evaluations in step %d' % (name, k), F.n == n, got=F.n, want=n)
        R.check('%s: advances in place' % name, np.shares_memory(np.asarray(r[0]), np.asarray(c.u)))
        R.close('%s: step sizes' % name, abs(r[1]-dt)+abs(r[2]-dt), 1e-6 if precision == 'single' else 1e-14)
