"""Compiled kernels against the decorated NumPy text on concrete arrays (bounded)."""
import os, sys, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from periodic import *

SHAPES = {3: [(4, 4, 3), (5, 3, 4), (2, 6, 3), (1, 2, 5)], 2: [(4, 3), (3, 5), (1, 4)]}
MODS = ('integrators', 'maths', 'solvers')


def compile_all(R, lusolve=True, pythran=True, precisions=('double', 'single')):
    pk = None
    d = H.enter_scratch()
    p = None
    if pythran:
        opt = os.path.join(d, 'pythran')
        os.makedirs(opt, exist_ok=True)
        import shutil
        shutil.copy(os.path.join(H.REPO, 'spectralDNS/optimization/pythran_maths.py'), opt)
        p = subprocess.Popen([H.PY, '-m', 'pythran.run', 'pythran_maths.py', '-O1', '-o', 'pythran_maths.so'], cwd=opt,
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    pk = H.scratch_package(MODS, precisions, lusolve=lusolve)
    if p is not None:
        out = p.communicate()[0]
        if p.returncode:
            R.errors.append('pythran: ' + out.decode()[-800:])
        else:
            import sysconfig, shutil
            dst = os.path.join(pk, 'spectralDNS/optimization/pythran_maths' + sysconfig.get_config_var('EXT_SUFFIX'))
            shutil.move(os.path.join(opt, 'pythran_maths.so'), dst)
    return pk


def modules(solver, opt, precision, dim):
    out = []
    for o in ('', opt):
        kw = dict(M=[3]*dim, N=[8]*dim)
        if solver == 'MHD':
            kw['L'] = [2*np.pi]*3
        s = H.fresh(solver, MESH.get(solver, 'channel'), optimization=o, precision=precision, context=False, **kw)
        import importlib
        s._cross = importlib.import_module('spectralDNS.maths.cross')
        s._int = importlib.import_module('spectralDNS.maths.integrators')
        out.append(s)
    return out


def clone(x):
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, list):
        return [clone(y) for y in x]
    return x


def same(R, name, fo, fr, args, tol):
    R.at(name)
    a, b = [clone(x) for x in args], [clone(x) for x in args]
    want = fr(*a)
    try:
        got = fo(*b)
    except Exception as e:
        R.check(name + ': accepts the call', False, error=repr(e))
        return
    R.close(name + ': result', H.relerr(np, got, want), tol)
    for n, (x, y) in enumerate(zip(b, a)):
        if isinstance(x, list):
            for i, (p, q) in enumerate(zip(x, y)):
                if isinstance(p, np.ndarray):
                    R.close('%s: argument %d[%d] afterwards' % (name, n, i), H.relerr(np, p, q), tol)
        elif isinstance(x, np.ndarray):
            R.close('%s: argument %d afterwards' % (name, n), H.relerr(np, x, y), tol)


class Rhs:
    def __init__(self, inplace, seed):
        self.inplace, self.calls, self.rng = inplace, [], np.random.default_rng(seed)

    def ComputeRHS(self, rhs, u, solver, **context):
        self.calls.append(u.copy())
        a = (u*(0.3+0.2j) + np.roll(u, 1)*np.asarray(u).conj()).astype(u.dtype)
        if self.inplace:
            rhs[:] = a
            return rhs
        return a


def kernels(R, solver, opt, precision, dim):
    sr, so = modules(solver, opt, precision, dim)
    ct, rt = (np.complex128, np.float64) if precision == 'double' else (np.complex64, np.float32)
    tol = 1e-12 if precision == 'double' else 2e-4
    rng = np.random.default_rng(SEED)
    fc = lambda *s: (rng.standard_normal(s) + 1j*rng.standard_normal(s)).astype(ct)
    fr = lambda *s: rng.standard_normal(s).astype(rt)
    for sh in SHAPES[dim]:
        tag = '%s %s %s %s' % (opt, precision, solver, 'x'.join(map(str, sh)))
        K = [fr(*[sh[j] if j == i else 1 for j in range(dim)]) for i in range(dim)]
        cs = (3,)+sh if dim == 3 else sh
        S = lambda n: (n,)+sh
        same(R, tag + ' cross1', so._cross.cross1, sr._cross.cross1, [fr(*cs), fr(*S(dim)), fr(*S(dim))], tol)
        same(R, tag + ' cross2 list', so._cross.cross2, sr._cross.cross2, [fc(*cs), K, fc(*S(dim))], tol)
        same(R, tag + ' cross2 array', so._cross.cross2, sr._cross.cross2, [fc(*cs), fr(*S(dim)), fc(*S(dim))], tol)
        nu, eta, Ri, Pr = rt(0.13), rt(0.27), rt(0.4), rt(0.9)
        if solver in ('NS', 'NS2D'):
            same(R, tag + ' add_pressure_diffusion', so.add_pressure_diffusion, sr.add_pressure_diffusion,
                 [fc(*S(dim)), fc(*S(dim)), nu, fr(*sh), K, fc(*sh), fr(*S(dim))], tol)
        if solver == 'Bq2D':
            same(R, tag + ' add_pressure_diffusion', so.add_pressure_diffusion, sr.add_pressure_diffusion,
                 [fc(*S(3)), fc(*S(3)), fc(*sh), fr(*S(2)), K, fr(*sh), nu, Ri, Pr], tol)
        if solver == 'MHD':
            same(R, tag + ' add_pressure_diffusion', so.add_pressure_diffusion, sr.add_pressure_diffusion,
                 [fc(*S(6)), fc(*S(6)), nu, eta, fr(*sh), K, fc(*sh), fr(*S(3))], tol)
        if solver == 'VV':
            same(R, tag + ' add_linear', so.add_linear, sr.add_linear, [fc(*S(3)), fc(*S(3)), nu, fr(*sh), fc(*S(3))], tol)
        if MESH.get(solver) is None:
            if hasattr(sr, 'assembleAB'):
                same(R, tag + ' assembleAB', so.assembleAB, sr.assembleAB, [fc(*S(3)), fc(*S(3)), fc(*S(3))], tol)
            if hasattr(sr, 'compute_vw'):
                same(R, tag + ' compute_vw', so.compute_vw, sr.compute_vw, [fc(*S(3)), fc(*sh), fc(*sh), fr(*S(2))], tol)
            if hasattr(sr, 'mult_K1j'):
                same(R, tag + ' mult_K1j', so.mult_K1j, sr.mult_K1j, [K, fc(*sh), fc(*S(2))], tol)
            if hasattr(sr, 'add_linear'):
                from shenfun import CachedArrayDict as Work
                k2 = np.abs(fr(*sh))
                m = [StandIn(fr(*sh), i) for i in range(5)]
                extra = [0.3, 0.45] if 'RK3' in solver else []
                same(R, tag + ' add_linear', lambda rhs, u, g: so.add_linear(rhs, u, g, Work(), *m, nu, rt(0.17), k2, k2*k2, *extra),
                     lambda rhs, u, g: sr.add_linear(rhs, u, g, Work(), *m, nu, rt(0.17), k2, k2*k2, *extra), [fc(*S(2)), fc(*sh), fc(*sh)], tol)
        else:
            nc = 6 if solver == 'MHD' else dim + (solver == 'Bq2D')
            a = np.array([1/6, 1/3, 1/3, 1/6], dtype=rt)
            b = np.array([0.5, 0.5, 1.], dtype=rt)
            dt = rt(0.17)
            for inplace in (True, False):
                w = '' if inplace else ', right-hand side in a new array'
                stepcheck(R, tag + ' RK4' + w, so, sr, 'RK4', [fc(*S(nc)) for _ in range(4)] + [a, b, dt], inplace, tol)
                stepcheck(R, tag + ' ForwardEuler' + w, so, sr, 'ForwardEuler', [fc(*S(nc)) for _ in range(2)] + [dt], inplace, tol)
                for ts in (0, 1, 2, 7):
                    stepcheck(R, tag + ' AB2 tstep=%d%s' % (ts, w), so, sr, 'AB2', [fc(*S(nc)) for _ in range(3)] + [dt, ts], inplace, tol)


class StandIn:
    """A matrix of the wall-normal direction: any linear map of the coefficients of one pair of wavenumbers."""

    def __init__(self, d, i):
        self.d, self.i = d, i+1

    def matvec(self, v, c, format=None, axis=0):
        c[...] = self.d*v + 0.1*self.i*np.roll(v, self.i, axis=0)
        return c


def channel_steps(R, solver, opt, nsteps=2):
    """Whole steps of a wall-bounded solver with the kernels of a backend."""
    import channel as ch
    res = []
    for o in ('', opt):
        s, c = ch.make(solver, quad='GC', optimization=o)
        s.conv = s.getConvection('Vortex')
        rng = np.random.default_rng(SEED)
        for n in sorted(k for k in c if k in ('U_hat', 'g', 'H_hat1', 'H_hat0', 'phi_hat', 'P_hat', 'U_hat0')):
            ch.randomize(rng, c[n], 0.5, ch.WALL[solver])
        step = s.getintegrator(c.dU, c.u, s, c)
        out = []
        try:
            for k in range(nsteps):
                step()
                with H.quiet():
                    s.end_of_tstep(c)
                out.append([np.array(c[n]) for n in ('U_hat', 'g', 'phi_hat', 'P_hat') if n in c])
        except Exception as e:
            if not res:
                raise
            R.check('%s %s: step %d' % (opt, solver, k), False, error=repr(e))
        res.append(out)
    for k, (x, y) in enumerate(zip(*res)):
        for i, (p, q) in enumerate(zip(x, y)):
            R.close('%s %s: state %d after step %d' % (opt, solver, i, k), H.relerr(np, q, p), 1e-9)


def stepcheck(R, name, so, sr, f, args, inplace, tol):
    R.at(name)
    Ro, Rr = Rhs(inplace, 1), Rhs(inplace, 1)
    a, b = [clone(x) for x in args], [clone(x) for x in args]
    want = getattr(sr._int, f)(*a, Rr, {})
    try:
        got = getattr(so._int, f)(*b, Ro, {})
    except Exception as e:
        R.check(name + ': accepts the call', False, error=repr(e))
        return
    R.close(name + ': new state', H.relerr(np, got[0], want[0]), tol)
    R.check(name + ': step sizes', abs(float(got[1])-float(want[1])) < 1e-6 and abs(float(got[2])-float(want[2])) < 1e-6, got=[float(got[1]), float(got[2])])
    R.check(name + ': in place', got[0] is b[0] and np.array_equal(got[0], b[0]))
    R.check(name + ': evaluations', len(Ro.calls) == len(Rr.calls))
    for k, (x, y) in enumerate(zip(Ro.calls, Rr.calls)):
        R.close('%s: state of evaluation %d' % (name, k), H.relerr(np, x, y), tol)
    if f == 'AB2':
        R.close(name + ': previous right-hand side', H.relerr(np, b[1], a[1]), tol)
