"""Compiled wall-normal kernels and operator classes against dense matrices built by quadrature."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import harness as H
import numpy as np
from numpy.polynomial import chebyshev as C

SEED = int(os.environ.get('VERIF_SEED', '1'))
THOROUGH = os.environ.get('VERIF_TIER') == 'thorough'
R = H.Report('C13')
H.enter_scratch()
rng = np.random.default_rng(SEED)


def cplx(*s):
    return rng.standard_normal(s) + 1j*rng.standard_normal(s)


class Guarded:
    """C-contiguous array inside a larger buffer."""
    PAD = 64

    def __init__(self, shape):
        n = int(np.prod(shape))
        self.buf = cplx(n+2*self.PAD)
        self.a = self.buf[self.PAD:self.PAD+n].reshape(shape)
        self.was = self.buf.copy()

    def intact(self):
        return np.array_equal(self.buf[:self.PAD], self.was[:self.PAD]) and np.array_equal(self.buf[-self.PAD:], self.was[-self.PAD:])

    def unchanged(self):
        return np.array_equal(self.buf, self.was)


def derivative(col):
    """Chebyshev coefficients of the derivative of sum col[k] (T_k - T_{k+2}), k <= N-3."""
    N = len(col)
    a = np.zeros(N, dtype=complex)
    a[:N-2] += col[:N-2]
    a[2:] -= col[:N-2]
    d = np.zeros(N, dtype=complex)
    d[:N-1] = C.chebder(a)
    return d


def points(N, quad):
    if quad == 'GC':
        return np.cos(np.pi*(2*np.arange(N)+1)/(2*N)), np.full(N, np.pi/N)
    w = np.full(N, np.pi/(N-1))
    w[0] /= 2
    w[-1] /= 2
    return np.cos(np.pi*np.arange(N)/(N-1)), w


def dirichlet(N):
    P = np.zeros((N-2, N))
    for k in range(N-2):
        P[k, k], P[k, k+2] = 1, -1
    return P


def neumann(N):
    P = np.zeros((N-2, N))
    for k in range(N-2):
        P[k, k], P[k, k+2] = 1, -(k/(k+2.))**2
    return P


def biharmonic(N):
    P = np.zeros((N-4, N))
    for k in range(N-4):
        P[k, k], P[k, k+2], P[k, k+4] = 1, -2*(k+2.)/(k+3.), (k+1.)/(k+3.)
    return P


def matrix(test, trial, der, N, quad):
    x, w = points(N, quad)
    t = np.array([C.chebval(x, r) for r in test])
    u = np.array([C.chebval(x, C.chebder(r, der) if der else r) for r in trial])
    return (t*w) @ u.T


def ctd(LU):
    for N in list(range(4, 65 if THOROUGH else 41)) + [64, 65, 128, 129, 256, 300, 513, 1025]:
        for axis in range(3):
            sh = [int(q) for q in rng.integers(1, 6, 3)]
            sh[axis] = N
            name = 'Mult_CTD_3D_ptr, %d points, axis %d, shape %s' % (N, axis, tuple(sh))
            with R.guard(name):
                v, w, bv, bw = (Guarded(sh) for q in range(4))
                for g in (v, w):                  # one dominant coefficient in half of the cases
                    if rng.random() < 0.3:
                        np.moveaxis(g.a, axis, 0)[int(rng.integers(0, N))] *= 1e3
                        g.was = g.buf.copy()
                LU.Mult_CTD_3D_ptr(N, v.a, w.a, bv.a, bw.a, axis)
                for a, b, lab in ((v, bv, 'first'), (w, bw, 'second')):
                    want = np.apply_along_axis(derivative, axis, a.a)
                    R.close('%s: derivative of the %s field' % (name, lab), float(np.abs(b.a-want).max()/max(1, np.abs(want).max())), 1e-12)
                    R.check('%s: %s input unchanged' % (name, lab), a.unchanged())
                    R.check('%s: nothing written outside the %s result' % (name, lab), b.intact())


def div(LU):
    for N in list(range(7, 65 if THOROUGH else 41)) + [64, 65, 128, 129, 257]:
        P, Q = dirichlet(N), neumann(N)
        Cm, Bm = matrix(Q, P, 1, N, 'GC'), matrix(Q, P, 0, N, 'GC')
        for rep in range(2):
            name = 'Mult_Div_1D, %d points (%d)' % (N, rep)
            with R.guard(name):
                m, n = (float(q) for q in rng.standard_normal(2)*5)
                u, v, w, b = (Guarded((N,)) for q in range(4))
                LU.Mult_Div_1D(N, m, n, u.a[:N-2], v.a[:N-2], w.a[:N-2], b.a[1:N-2])
                want = Cm @ u.a[:-2] + 1j*m*(Bm @ v.a[:-2]) + 1j*n*(Bm @ w.a[:-2])
                R.close('%s: rows 1..N-3' % name, float(np.abs(b.a[1:N-2]-want[1:]).max()/np.abs(want).max()), 1e-12)
                R.check('%s: inputs unchanged' % name, u.unchanged() and v.unchanged() and w.unchanged())
                R.check('%s: nothing written outside the rows' % name, b.intact() and b.a[0] == b.was[b.PAD] and np.array_equal(b.a[N-2:], b.was[b.PAD+N-2:b.PAD+N]))
        sh = (N, int(rng.integers(1, 5)), int(rng.integers(1, 5)))
        name = 'Mult_Div_3D, shape %s' % (sh,)
        with R.guard(name):
            m, n = rng.standard_normal(sh[1:])*5, rng.standard_normal(sh[1:])*5
            u, v, w, b = (Guarded(sh) for q in range(4))
            LU.Mult_Div_3D(N, m, n, u.a[:N-2], v.a[:N-2], w.a[:N-2], b.a[1:N-2])
            T = lambda A, x: np.tensordot(A, x.a[:-2], (1, 0))
            want = T(Cm, u) + 1j*m*T(Bm, v) + 1j*n*T(Bm, w)
            R.close('%s: rows 1..N-3' % name, float(np.abs(b.a[1:N-2]-want[1:]).max()/np.abs(want).max()), 1e-12)
            R.check('%s: inputs unchanged' % name, u.unchanged() and v.unchanged() and w.unchanged())
            R.check('%s: nothing written outside the rows' % name, b.intact())


def matvecs():
    from spectralDNS.shen.Matrices import HelmholtzCoeff, BiharmonicCoeff
    for N in list(range(8, 41 if THOROUGH else 26)) + [32, 33, 40]:
        for quad in ('GC', 'GL'):
            P, B = dirichlet(N), biharmonic(N)
            A2, A0 = matrix(P, P, 2, N, quad), matrix(P, P, 0, N, quad)
            S4, S2, S0 = (matrix(B, B, d, N, quad) for d in (4, 2, 0))
            axis = int(rng.integers(0, 3))
            sh = [int(q) for q in rng.integers(1, 5, 3)]
            sh[axis] = N
            one = list(sh)
            one[axis] = 1
            name = '%d points, %s, axis %d' % (N, quad, axis)
            ap = lambda A, x: np.moveaxis(np.tensordot(A, np.moveaxis(x, axis, 0)[:A.shape[1]], (1, 0)), 0, axis)
            cut = lambda x, k: np.moveaxis(np.moveaxis(x, axis, 0)[:k], 0, axis)
            for scalar in (True, False):
                with R.guard('HelmholtzCoeff, ' + name):
                    al = float(rng.standard_normal()) if scalar else rng.standard_normal(one)
                    be = rng.standard_normal(one)
                    v, c = Guarded(sh), Guarded(sh)
                    keep = np.array(al), be.copy()
                    h = HelmholtzCoeff(N, al, be, axis, quad)
                    for rep in range(2):
                        r = h.matvec(v.a, c.a)
                    want = al*ap(A2, v.a) + be*ap(A0, v.a)
                    R.close('HelmholtzCoeff.matvec, %s%s' % (name, ', scalar' if scalar else ''), float(np.abs(cut(c.a, N-2)-want).max()/np.abs(want).max()), 1e-11)
                    R.check('HelmholtzCoeff.matvec, %s: input unchanged, nothing written outside, result returned' % name,
                            v.unchanged() and c.intact() and r is c.a and np.array_equal(keep[0], al) and np.array_equal(keep[1], be))
                    R.check('HelmholtzCoeff.matvec, %s: last two rows zero' % name, not np.moveaxis(c.a, axis, 0)[N-2:].any())
            if N < 13:        # shenfun's own Biharmonic_matvec is wrong below 13 points
                continue
            with R.guard('BiharmonicCoeff, ' + name):
                a0 = float(rng.standard_normal())
                al, be = rng.standard_normal(one), rng.standard_normal(one)
                v, c = Guarded(sh), Guarded(sh)
                b = BiharmonicCoeff(N, a0, al, be, axis, quad)
                for rep in range(2):
                    r = b.matvec(v.a, c.a)
                want = a0*ap(S4, v.a) + al*ap(S2, v.a) + be*ap(S0, v.a)
                R.close('BiharmonicCoeff.matvec, %s' % name, float(np.abs(cut(c.a, N-4)-want).max()/np.abs(want).max()), 1e-10)
                R.check('BiharmonicCoeff.matvec, %s: input unchanged, nothing written outside, result returned' % name, v.unchanged() and c.intact() and r is c.a)
                R.check('BiharmonicCoeff.matvec, %s: last four rows zero' % name, not np.moveaxis(c.a, axis, 0)[N-4:].any())


if __name__ == '__main__':
    dst = H.scratch_package(lusolve=True)
    H.use(dst)
    from spectralDNS.shen import LUsolve
    assert os.path.realpath(LUsolve.__file__).startswith(os.path.realpath(dst))
    ctd(LUsolve)
    div(LUsolve)
    matvecs()
    R.done()
