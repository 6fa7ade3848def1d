"""Channel integrals of the real dx: polynomials times wall-parallel waves, all sizes, quadratures and axes."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from channel import *
import numpy as np
from numpy.polynomial import chebyshev as C

SEED = int(os.environ.get('VERIF_SEED', '1'))
THOROUGH = os.environ.get('VERIF_TIER') == 'thorough'
PARALLEL = int(os.environ.get('OMPI_COMM_WORLD_SIZE', '1')) > 1
R = H.Report('C19')
H.enter_scratch(); H.use()


def integral(p):
    q = C.chebint(p)
    return C.chebval(1, q)-C.chebval(-1, q)


def run(solver=None):
    from shenfun import FunctionSpace, TensorProductSpace, Array
    from mpi4py import MPI
    import spectralDNS.config as config
    from spectralDNS.utilities import dx
    comm = MPI.COMM_WORLD
    rng = np.random.default_rng(SEED)
    sizes = [4, 5, 8, 9, 16, 21] if PARALLEL else (list(range(2, 65)) if THOROUGH else list(range(2, 13)) + [16, 17, 24, 31, 40, 64, 66, 131])
    for axis in range(3):
        for quad in ('GC', 'GL'):
            for M in sizes:
                for bc in ((None, (0, 0)) if M > 3 else (None,)):
                    name = 'axis %d, %s, %d points%s' % (axis, quad, M, '' if bc is None else ', Dirichlet space')
                    par = [a for a in range(3) if a != axis]
                    N = [0, 0, 0]
                    N[axis] = M
                    n1, n2 = (int(x) for x in rng.choice([4, 6, 8, 10], 2))
                    N[par[0]], N[par[1]] = n1, n2
                    L = [2.0]*3
                    L[par[0]], L[par[1]] = float(1+5*rng.random()), float(1+5*rng.random())
                    with R.guard(name):
                        config.params.update({'precision': 'double', 'L': L, 'N': N})
                        b = [None]*3
                        b[axis] = FunctionSpace(M, 'C', quad=quad) if bc is None else FunctionSpace(M, 'C', bc=bc, quad=quad)
                        b[par[0]] = FunctionSpace(n1, 'F', domain=(0, L[par[0]]), dtype='D')
                        b[par[1]] = FunctionSpace(n2, 'F', domain=(0, L[par[1]]), dtype='d')
                        T = TensorProductSpace(comm, b, axes=(axis, par[0], par[1]), slab=True)
                        X = T.local_mesh(True)
                        x = X[axis]
                        y, z = 2*np.pi*X[par[0]]/L[par[0]], 2*np.pi*X[par[1]]/L[par[1]]
                        u = Array(T)
                        polys = [np.eye(M)[d] for d in sorted({0, 1, 2, M-2, M-1} & set(range(M)))] + [rng.standard_normal(M) for _ in range(3)]
                        for i, p in enumerate(polys):
                            am = rng.standard_normal(3)
                            u[:] = C.chebval(x, p)*(am[0]+am[1]*np.cos(y+1)*np.sin(2*z)+am[2]*np.sin(z+2)*np.cos(y))
                            keep = np.array(u)
                            got = dx(u, T, axis=axis) if axis or i % 2 else dx(u, T)
                            want = integral(p)*am[0]*L[par[0]]*L[par[1]]
                            if comm.Get_rank() == 0:
                                tol = 1e-13*M*L[par[0]]*L[par[1]]*max(1, np.abs(p).sum())*np.abs(am).sum()
                                R.check('%s: polynomial %d' % (name, i), np.isfinite(got) and abs(got-want) <= tol, got=float(got), want=float(want))
                            R.check('%s: the field is not changed' % name, np.array_equal(keep, u))
                            for a2 in (axis, axis-3):
                                with R.guard('%s: axis given as %d' % (name, a2)):
                                    g2 = dx(u, T, axis=a2)
                                    R.check('%s: asking again with axis=%d gives the same' % (name, a2), abs(g2-got) <= 1e-14*max(1, abs(got)))


def solvers():
    """The spaces of the real contexts."""
    for solver in ('KMM', 'KMMr', 'KMMRK3', 'KMM_RB', 'Coupled', 'CoupledRK3'):
        for quad in ('GC', 'GL'):
            axis = 2 if solver == 'KMMr' else 0
            name = '%s %s' % (solver, quad)
            with R.guard(name):
                from spectralDNS.utilities import dx
                kw = {'M': [3, 3, 4] if axis == 2 else [4, 3, 3], 'L': [3, 4, 2] if axis == 2 else [2, 3, 4], 'Dquad': quad, 'Bquad': quad, 'Nquad': quad}
                if solver.endswith('_RB'):
                    kw.update(kappa=0.1, Ra=100.0, Pr=1.0)
                s, c = make_any(solver, kw)
                from spectralDNS.utilities import dx
                X = c.X
                u = c.U[0].copy()
                rng = np.random.default_rng(SEED)
                for rep in range(4):
                    p = rng.standard_normal(16)
                    u[...] = C.chebval(X[axis], p)*(1+np.cos(2*np.pi*X[1]/s.params.L[1]))
                    got = dx(u, c.FST, axis=axis)
                    if s.rank == 0:
                        R.close('%s: integral over the domain' % name, abs(got-12*integral(p)), 1e-11, got=float(got))


def make_any(solver, kw):
    with H.quiet():
        s = H.fresh(solver, 'channel', context=False, **{k: v for k, v in kw.items()})
        if 'kappa' in kw:
            s.params.kappa = kw['kappa']
        c = s.get_context()
    return s, c


if __name__ == '__main__':
    run()
    solvers()
    if not PARALLEL:
        on_processes(R, __file__)
    R.done()
