"""Diagnostics of the real periodic solvers against dense formulas."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from periodic import *
import itertools

R = H.Report('C18')
H.enter_scratch(); H.use()
PRIMARY = {'NS': 'U_hat', 'NS2D': 'U_hat', 'VV': 'W_hat', 'MHD': 'UB_hat', 'Bq2D': 'Ur_hat'}
WHAT = {'NS': ['get_velocity', 'get_curl', 'get_pressure', 'get_divergence'],
        'NS2D': ['get_velocity', 'get_curl', 'get_pressure', 'get_divergence'],
        'VV': ['get_velocity', 'get_curl', 'get_divergence'],
        'MHD': ['get_divergence'],
        'Bq2D': ['get_Ur', 'get_rho', 'get_velocity', 'get_curl', 'get_pressure', 'get_divergence']}


def want(solver, what, c, dim, st, P):
    K, K2 = kmats(c, dim)
    T = c.T
    vel = 1j*kcross(k_over(K, K2), st) if solver == 'VV' else st[:dim]
    if what == 'get_velocity':
        return np.array([B(T, v) for v in vel])
    if what == 'get_Ur':
        return np.array([B(T, v) for v in st])
    if what == 'get_rho':
        return B(T, st[2])
    if what == 'get_pressure':
        return B(T, -1j*P)
    if what == 'get_divergence':
        return B(T, 1j*sum(K[i]*vel[i] for i in range(dim)))
    if solver == 'VV':
        return np.array([B(T, v) for v in st])
    if dim == 3:
        return np.array([B(T, 1j*x) for x in kcross(K, vel)])
    return B(T, 1j*(K[0]*vel[1]-K[1]*vel[0]))


def run(R, solver, cfg, optimization=''):
    dim = 2 if solver in ('NS2D', 'Bq2D') else 3
    s, c = make(solver, optimization, convection=forms(solver)[0], **cfg)
    name = '%s N=%s L=%s %s' % (solver, cfg['N'], ['%g' % l for l in cfg['L']], cfg['dealias'])
    base_name = name
    s.conv = s.getConvection(forms(solver)[0])
    rng = np.random.default_rng(SEED)
    for trial, (scale, what) in enumerate([(1, ''), (1, ''), (1e9, ''), (1e-9, '')] + [(1, w) for w in SPECIAL[:6]]):
        u = c[PRIMARY[solver]]
        randomize(c, u, u.function_space(), rng)
        u *= scale
        if what:
            special(u, what, c)
            name = base_name + ', state ' + what
        ref = None
        st = np.array(u)
        base = np.array(s.ComputeRHS(c.dU, c.u, s, **c))
        P = np.array(c.P_hat) if 'P_hat' in c else None
        for diag in WHAT[solver]*2:
            got = np.array(getattr(s, diag)(**c))
            R.close('%s: %s' % (name, diag), H.relerr(np, got, want(solver, diag, c, dim, st, P)) if diag != 'get_divergence' or solver != 'VV'
                    else float(np.abs(got).max()/max(np.abs(st).max(), 1e-300)), 1e-9)
            R.check('%s: %s leaves the state alone' % (name, diag), np.array_equal(np.array(u), st))
            if P is not None:
                R.check('%s: %s leaves the pressure alone' % (name, diag), np.array_equal(np.array(c.P_hat), P))
            again = np.array(s.ComputeRHS(c.dU, c.u, s, **c))
            R.close('%s: next right-hand side after %s' % (name, diag), H.relerr(np, again, base), 1e-10)
        if solver == 'MHD':
            continue
        K, K2 = kmats(c, dim)
        v = np.random.default_rng(SEED+trial).standard_normal(c.U.shape)*scale
        v = np.array([B(c.T, F(c.T, x)) for x in v])          # a resolved field
        rho = np.array(c.Ur_hat[2]) if solver == 'Bq2D' else None
        c.U[:] = v
        s.set_velocity(**c)
        hat = np.array([F(c.T, x) for x in v])
        R.close('%s: set_velocity' % name, H.relerr(np, c.U_hat, hat), 1e-10)
        if rho is not None:
            R.check('%s: set_velocity leaves the density alone' % name, np.array_equal(np.array(c.Ur_hat[2]), rho))
            R.close('%s: set_velocity sets the primary variable' % name, H.relerr(np, c.Ur_hat[:2], hat), 1e-10)
        if solver == 'VV':
            s.cross2(c.W_hat, c.K, c.U_hat)
            div = sum(K[i]*hat[i] for i in range(3))
            hat = np.array([(hat[i] - K[i]*div/np.where(K2 == 0, 1, K2))*(K2 != 0) for i in range(3)])
        c.U[:] = 99
        s.get_velocity(**c)
        R.close('%s: velocity read back' % name, H.relerr(np, c.U, np.array([B(c.T, h) for h in hat])), 1e-9)
    # projection
    import importlib
    project = importlib.import_module('spectralDNS.maths').project
    K, K2 = kmats(c, dim)
    a = rng.standard_normal((dim,)+K2.shape) + 1j*rng.standard_normal((dim,)+K2.shape)
    w = np.array([a[i] - K[i]*sum(K[j]*a[j] for j in range(dim))/np.where(K2 == 0, 1, K2) for i in range(dim)])
    R.close('%s: projection' % name, H.relerr(np, project(a.copy(), c.K, np.asarray(c.K_over_K2)), w), 1e-10)


for solver in ('NS', 'NS2D', 'VV', 'MHD', 'Bq2D'):
    cf = configs(2 if solver.endswith('2D') else 3)
    for cfg in (cf if THOROUGH else cf[:4] + cf[-2:]):
        if cfg['N'][0] % 2 or any(n % 2 for n in cfg['N']):
            pass
        guarded(R, '%s' % solver, run, R, solver, cfg)
R.done()
