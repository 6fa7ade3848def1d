"""Numerical oracle for the Fourier solvers: the contracts of contracts/C01..C05 evaluated with numpy and shenfun
transforms on concrete fields (bounded: small meshes, random data)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import harness as H
import numpy as np

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
THOROUGH = os.environ.get('VERIF_TIER', 'quick') == 'thorough'
MESH = {'NS': 'triplyperiodic', 'VV': 'triplyperiodic', 'MHD': 'triplyperiodic', 'NS2D': 'doublyperiodic', 'Bq2D': 'doublyperiodic'}
NCOMP = {'NS': 3, 'VV': 3, 'MHD': 6, 'NS2D': 2, 'Bq2D': 3}


def L3(dim):
    return [2*np.pi, 4*np.pi, 3.0][:dim]


def configs(dim):
    N = [[8, 8, 8], [8, 6, 10], [7, 9, 5], [12, 8, 6]]
    out = []
    for n in (N if THOROUGH else N[:3]):
        for d in ('2/3-rule', '3/2-rule', 'None'):
            out.append(dict(N=np.array(n[:dim]), L=L3(dim), dealias=d))
    if dim:
        out.append(dict(N=np.array([6, 8, 8][:dim]), L=[900.0, 0.02, 5.0][:dim], dealias='2/3-rule'))
        out.append(dict(N=np.array([8, 6, 6][:dim]), L=[0.05, 3.0, 700.0][:dim], dealias='3/2-rule'))
    return out


def make(solver, optimization='', precision='double', **kw):
    kw = dict(kw)
    N = kw.pop('N')
    L = kw.pop('L')
    kw.setdefault('nu', 0.0371)
    if precision == 'single':
        # the installed shenfun's compiled mask kernel has no complex64 variant: masking is exercised in double only
        kw.setdefault('mask_nyquist', False)
    s, c = H.fresh(solver, MESH[solver], optimization=optimization, precision=precision,
                   M=[3]*len(N), N=[int(n) for n in N], L=[repr(float(x)) for x in L], **kw)
    OWN[id(c)] = (c, Own([int(n) for n in N], [float(x) for x in L], kw.get('dealias', '2/3-rule'), precision, kw.get('mask_nyquist', True)))
    return s, c


OWN = {}


class Own:
    """Wavenumbers and transforms of the configured problem, independent of what the solver's context holds."""

    def __init__(self, N, L, dealias, precision, mask):
        from shenfun import FunctionSpace, TensorProductSpace
        from mpi4py import MPI
        dim, f = len(N), np.float32 if precision == 'single' else np.float64
        V = [FunctionSpace(n, 'F', domain=(0, x), dtype=f if a == dim-1 else (np.complex64 if precision == 'single' else np.complex128))
             for a, (n, x) in enumerate(zip(N, L))]
        self.T = TensorProductSpace(MPI.COMM_WORLD, V, dtype=f, slab=True, collapse_fourier=dealias != '3/2-rule')
        self.Tp = self.T.get_dealiased(padding_factor=1.5 if dealias == '3/2-rule' else 1, dealias_direct=dealias == '2/3-rule')
        m = self.T.get_mask_nyquist() if mask else None
        self.mask = 1 if m is None else m
        sl = self.T.local_slice(True)
        self.K = []
        for a, (n, x) in enumerate(zip(N, L)):
            k = (np.fft.rfftfreq if a == dim-1 else np.fft.fftfreq)(n, 1./n)[sl[a]]*2*np.pi/x
            self.K.append(k.reshape([-1 if b == a else 1 for b in range(dim)]))


def own(c):
    return OWN[id(c)][1]


def randomize(c, arr, space, rng, kill_zero=False):
    """Fill arr with the transform of a random real field."""
    from shenfun import Array
    a = Array(space)
    a[:] = rng.standard_normal(a.shape)
    f = space.forward(a, np.zeros_like(arr))
    arr[:] = f
    return arr


def kmats(c, dim):
    K = own(c).K
    K2 = sum(k*k for k in K)*np.ones(own(c).T.shape(True))
    return K, K2


def B(T, x):
    from shenfun import Array
    out = Array(T)
    return np.array(T.backward(np.ascontiguousarray(x).astype(out.dtype.char == 'f' and np.complex64 or np.complex128), out))


def F(T, x):
    from shenfun import Function, Array
    a = Array(T)
    a[:] = x
    out = Function(T)
    return np.array(T.forward(a, out))


def cross(a, b):
    return np.array([a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]])


def kcross(K, a):
    return np.array([K[1]*a[2]-K[2]*a[1], K[2]*a[0]-K[0]*a[2], K[0]*a[1]-K[1]*a[0]])


def k_over(K, K2):
    Z = np.where(K2 == 0, 1, K2)
    return [k/Z*(K2 != 0) for k in K]


def convection(solver, form, c, u):
    dim = 2 if solver in ('NS2D', 'Bq2D') else 3
    Tp = own(c).Tp
    K, K2 = kmats(c, dim)
    if solver in ('NS', 'NS2D'):
        ux = [B(Tp, u[i]) for i in range(dim)]
        std = lambda: np.array([-F(Tp, sum(ux[j]*B(Tp, 1j*K[j]*u[i]) for j in range(dim))) for i in range(dim)])
        dv = lambda: np.array([-sum(1j*K[j]*F(Tp, ux[i]*ux[j]) for j in range(dim)) for i in range(dim)])
        if form == 'Standard':
            return std()
        if form == 'Divergence':
            return dv()
        if form == 'Skewed':
            return 0.5*(std()+dv())
        if dim == 3:
            w = [B(Tp, 1j*x) for x in kcross(K, u)]
            return np.array([F(Tp, x) for x in cross(ux, w)])
        w = B(Tp, 1j*(K[0]*u[1]-K[1]*u[0]))
        return np.array([F(Tp, ux[1]*w), F(Tp, -ux[0]*w)])
    if solver == 'VV':
        v = 1j*kcross(k_over(K, K2), u)
        ux = [B(Tp, v[i]) for i in range(3)]
        wx = [B(Tp, u[i]) for i in range(3)]
        return 1j*kcross(K, np.array([F(Tp, x) for x in cross(ux, wx)]))
    if solver == 'MHD':
        x = [B(Tp, u[i]) for i in range(6)]
        v, b = x[:3], x[3:]
        m = [-sum(1j*K[j]*F(Tp, v[i]*v[j]-b[i]*b[j]) for j in range(3)) for i in range(3)]
        n = [sum(1j*K[j]*F(Tp, v[i]*b[j]-b[i]*v[j]) for j in range(3)) for i in range(3)]
        return np.array(m+n)
    x = [B(Tp, u[i]) for i in range(3)]
    w = B(Tp, 1j*(K[0]*u[1]-K[1]*u[0]))
    return np.array([F(Tp, x[1]*w), F(Tp, -x[0]*w), -sum(1j*K[j]*F(Tp, x[j]*x[2]) for j in range(2))])


def linear(solver, c, p, N, u, Src):
    dim = 2 if solver in ('NS2D', 'Bq2D') else 3
    K, K2 = kmats(c, dim)
    mask = own(c).mask
    M = np.array([np.asarray(n)*mask for n in N])
    Z = np.where(K2 == 0, 1, K2)
    nu = float(p.nu)
    P = None
    if solver == 'VV':
        out = np.array([M[i] - nu*K2*u[i] for i in range(3)])
    elif solver in ('NS', 'NS2D'):
        P = sum(K[i]*M[i] for i in range(dim))/Z
        out = np.array([M[i] - K[i]*P - nu*K2*u[i] for i in range(dim)])
    elif solver == 'MHD':
        P = sum(K[i]*M[i] for i in range(3))/Z
        out = np.array([M[i] - K[i]*P - nu*K2*u[i] for i in range(3)] + [M[i] - float(p.eta)*K2*u[i] for i in range(3, 6)])
    else:
        g = [M[0], M[1] - float(p.Ri)*u[2]]
        P = (K[0]*g[0]+K[1]*g[1])/Z
        out = np.array([g[0]-K[0]*P-nu*K2*u[0], g[1]-K[1]*P-nu*K2*u[1], M[2]-nu/float(p.Pr)*K2*u[2]])
    if Src is not None:
        out = out + Src
    return out, P


def conv_args(solver, c, rhs, u):
    if solver in ('NS', 'NS2D'):
        return (rhs, u, c.work, c.Tp, c.VTp, c.K, c.u_dealias)
    if solver == 'VV':
        return (rhs, u, c.work, c.Tp, c.VTp, c.K, c.K_over_K2, c.u_dealias)
    if solver == 'MHD':
        return (rhs, u, c.Tp, c.VMp, c.K, c.ub_dealias, c.ZZ_hat)
    return (rhs, u, c.work, c.T, c.Tp, c.VM, c.VMp, c.K, c.ur_dealias)


def forms(solver):
    return {'NS': ['Vortex', 'Standard', 'Divergence', 'Skewed'], 'MHD': ['Divergence']}.get(solver, ['Vortex'])


def check_solver(R, solver, optimization='', precision='double', cfgs=None, tag='', arbitrary=True):
    dim = 2 if solver in ('NS2D', 'Bq2D') else 3
    tol = 2e-4 if precision == 'single' else 1e-10
    for cfg in cfgs if cfgs is not None else configs(dim):
        name = '%s%s N=%s %s%s%s' % (tag, solver, 'x'.join(map(str, cfg['N'])), cfg['dealias'],
                                     ' '+optimization if optimization else '', ' single' if precision == 'single' else '')
        extra = {'eta': 0.021} if solver == 'MHD' else ({'Ri': 0.3, 'Pr': 0.7} if solver == 'Bq2D' else {})
        s, c = make(solver, optimization, precision, convection=forms(solver)[0], **cfg)
        for k, v in extra.items():
            s.params[k] = v
        rng = np.random.default_rng(SEED)
        space = c.u.function_space()
        for form in forms(solver):
            s.conv = s.getConvection(form)
            for trial in range(2):
                u = randomize(c, c.u, space, rng)
                if trial == 1:
                    u *= 0.7
                u0 = np.array(u)
                c.dU[:] = rng.standard_normal(c.dU.shape)
                want = convection(solver, form, c, u0)
                got = s.conv(*conv_args(solver, c, c.dU, u))
                R.close('%s: %s convection, evaluation %d' % (name, form, trial), H.relerr(np, got, want), tol, seed=SEED)
                R.check('%s: %s convection leaves its argument alone' % (name, form), np.array_equal(u, u0))
                Src = None
                if 'Source' in c and solver != 'MHD':
                    c.Source[:] = 0.1*rng.standard_normal(c.Source.shape)
                    Src = np.array(c.Source)
                w, P = linear(solver, c, s.params, want, u0, Src)
                c.dU[:] = rng.standard_normal(c.dU.shape)
                got = s.ComputeRHS(c.dU, c.u, s, **c)
                R.close('%s: %s right-hand side, evaluation %d' % (name, form, trial), H.relerr(np, got, w), tol, seed=SEED)
                if P is not None and 'P_hat' in c:
                    R.close('%s: %s pressure' % (name, form), H.relerr(np, c.P_hat, P), tol*10)
        coefficients(s, solver, rng)
        for form in forms(solver):
            s.conv = s.getConvection(form)
            evaluation(R, '%s: %s, other coefficients' % (name, form), s, c, solver, form, rng, tol, sources=True)
            for what in SPECIAL if precision == 'double' else ():
                evaluation(R, '%s: %s' % (name, form), s, c, solver, form, rng, tol, what=what)
        if arbitrary:
            # any convection: no cancellation hides a projection error
            n = np.array(randomize(c, np.zeros_like(c.u), space, rng))

            def cv(rhs, *a):
                rhs[:] = n
                return rhs
            s.conv = cv
            u = randomize(c, c.u, space, rng)
            Src = np.array(c.Source) if 'Source' in c and solver != 'MHD' else None
            w, P = linear(solver, c, s.params, n, np.array(u), Src)
            got = s.ComputeRHS(c.dU, c.u, s, **c)
            R.close('%s: right-hand side for an arbitrary convection' % name, H.relerr(np, got, w), tol)
            if P is not None and 'P_hat' in c:
                R.close('%s: pressure for an arbitrary convection' % name, H.relerr(np, c.P_hat, P), tol*10)


def coefficients(s, solver, rng):
    """Random admissible coefficients (the Richardson number may have either sign)."""
    new = {'nu': rng.uniform(.001, 2.)}
    if solver == 'MHD':
        new['eta'] = rng.uniform(.001, 2.)
    if solver == 'Bq2D':
        new['Ri'], new['Pr'] = rng.choice([-1, 1])*rng.uniform(.05, 3), rng.uniform(.1, 4.)
    for k, v in new.items():
        s.params[k] = float(v)


SPECIAL = ('first component zero', 'second component zero', 'last component zero', 'the same along the first axis',
           'the same along the last axis', 'zero', 'very large', 'very small')


def special(u, what, c):
    """States with a particularity that code might (wrongly) take for a simpler flow."""
    K = own(c).K
    if what.endswith('component zero'):
        u[{'f': 0, 's': 1, 'l': -1}[what[0]]] = 0
    elif what.endswith('axis'):
        u *= (K[0 if 'first' in what else -1] == 0)
    elif what == 'zero':
        u[...] = 0
    else:
        u *= {'very large': 1e8, 'very small': 1e-8}[what]


def evaluation(R, name, s, c, solver, form, rng, tol, sources=False, what=None):
    """One evaluation of the right-hand side from a random state; the source may vanish in some components."""
    u = randomize(c, c.u, c.u.function_space(), rng)
    if what:
        special(u, what, c)
        name += ', state %s:' % what
    u0 = np.array(u)
    Src = None
    if 'Source' in c and solver != 'MHD':
        c.Source[:] = 0.1*rng.standard_normal(c.Source.shape)
        if sources:
            for i in range(c.Source.shape[0]):
                if rng.random() < .5:
                    c.Source[i] = 0
        Src = np.array(c.Source)
    w, P = linear(solver, c, s.params, convection(solver, form, c, u0), u0, Src)
    c.dU[:] = rng.standard_normal(c.dU.shape)
    got = s.ComputeRHS(c.dU, c.u, s, **c)
    R.close('%s right-hand side' % name, H.relerr(np, got, w), tol, nu=float(s.params.nu), seed=SEED)
    if P is not None and 'P_hat' in c:
        R.close('%s pressure' % name, H.relerr(np, c.P_hat, P), tol*10)
    R.check('%s leaves the state alone' % name, np.array_equal(c.u, u0))


def histories(R, solver, optimization=''):
    """Several problems in one process, each differing from the one before in a single respect (whatever the code keeps and
    recognises by the others is found out); the new problem and one of the earlier ones are evaluated after each change."""
    dim = 2 if solver.endswith('2D') else 3
    rng = np.random.default_rng(SEED + 5)
    for rep in range(4 if THOROUGH else 1):
        N = [[8, 8, 8], [6, 8, 10]][rep % 2][:dim]
        L = [float(x) for x in rng.uniform(1, 9, dim)]
        cfg = dict(N=np.array(N), L=list(L), dealias='3/2-rule', nu=0.3, **({} if solver == 'VV' else {'mask_nyquist': False}))
        own = {'MHD': {'eta': 0.021}, 'Bq2D': {'Ri': 0.3, 'Pr': 0.7}}.get(solver, {})
        new = [('nu', 0.04)] + [(k, float(rng.uniform(.1, 2.))*(-1 if k == 'Ri' else 1)) for k in own] + [('t', 0.7), ('tstep', 3)]
        for a in range(dim):
            L[a] = float(rng.uniform(1, 9))
            new.append(('L', list(L)))
        new += [('dealias', '2/3-rule')] + ([] if solver == 'VV' else [('mask_nyquist', True)]) + [('dealias', 'None')]
        for a in range(dim):
            N = list(N)
            N[a] = N[a] + 2
            new.append(('N', np.array(N)))
        made = []
        for k, (what, val) in enumerate([(None, None)] + new):
            if what in own:
                own[what] = val
            elif what in ('t', 'tstep'):
                own[what] = val
            elif what is not None:
                cfg[what] = val
            s, c = make(solver, optimization, convection=forms(solver)[0], keep=k > 0, **cfg)
            made.append((c, dict(cfg)))
            for j in [k, int(rng.integers(k+1))]:
                form = forms(solver)[int(rng.integers(len(forms(solver))))]
                s.conv = s.getConvection(form)
                for key, v in dict(own, nu=cfg['nu']).items():
                    s.params[key] = v
                evaluation(R, '%s history %d (%s), context %d of %d, %s' % (solver, rep, what or 'first', j, k+1, form), s, made[j][0], solver, form, rng, 1e-10, True)


def guarded(R, name, f, *a, **k):
    """An exception of the code under test is a failure of the named check."""
    R.at(name)
    try:
        return f(*a, **k)
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        here = os.path.dirname(os.path.abspath(__file__))
        if os.path.dirname(os.path.abspath(tb[-1].filename)) == here and isinstance(e, (AttributeError, TypeError, KeyError, ImportError)):
            # the harness could not address the code (a renamed helper, another signature): not a failure of the code
            R.errors.append('%s: %r at %s:%s' % (name, e, tb[-1].filename, tb[-1].lineno))
            return None
        R.check(name + ': runs', False, error=repr(e), trace=traceback.format_exc(limit=-3))
