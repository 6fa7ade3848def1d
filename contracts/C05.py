"""Two-dimensional Boussinesq solver."""
from .common import *

META = dict(
    functions=['Bq2D.getConvection', 'Bq2D.add_pressure_diffusion', 'Bq2D.ComputeRHS', 'Bq2D.get_context'],
    trusted=TRUSTED_FFT + TRUSTED_ENGINE, assumptions=[],
    bounded='random velocity and density fields on small meshes against a dense oracle')


def nonlinear(S, q):
    Tp, K = S.c.Tp, S.K
    u = [bwd(Tp, q[i]) for i in range(3)]
    w = bwd(Tp, 1j*(K[0]*q[1]-K[1]*q[0]))
    return [fwd(Tp, u[1]*w), fwd(Tp, -u[0]*w), -(1j*K[0]*fwd(Tp, u[0]*u[2]) + 1j*K[1]*fwd(Tp, u[1]*u[2]))]


def linear(S, n, q, mask):
    K, K2, nu, Ri, Pr = S.K, S.K2, S.nu, S.params.Ri, S.params.Pr
    M = [x*mask for x in n]
    g = [M[0], M[1] - Ri*q[2]]               # buoyancy acts on the second component
    p = safe_div(K[0]*g[0]+K[1]*g[1], K2)
    return stackv([g[0] - K[0]*p - nu*K2*q[0], g[1] - K[1]*p - nu*K2*q[1], M[2] - nu/Pr*K2*q[2]]), p


def prove(V):
    for dealias in DEALIAS:
        V.case('Bq2D convection, %s' % dealias, lambda: conv(V, dealias))
        V.case('Bq2D right-hand side, %s' % dealias, lambda: rhs(V, dealias, False))
    V.case('Bq2D right-hand side with its convection', lambda: rhs(V, '3/2-rule', True))


def conv(V, dealias):
    S = periodic(V, 'Bq2D', dealias)
    for S in rounds(V, S):
        c = S.c
        f = S.s.getConvection('Vortex')
        for nm in ('q', 'r'):
            q = field(S, nm, (3,))
            c.Ur_hat[:] = q
            scribble(S, ['dU', 'ur_dealias', 'P_hat'])
            snap = V.snapshot(**ctx_arrays(c, ['Ur_hat', 'K', 'K2', 'K_over_K2', 'mask']))
            r = f(c.dU, c.Ur_hat, c.work, c.T, c.Tp, c.VM, c.VMp, c.K, c.ur_dealias)
            V.eq('momentum and density, evaluation %s' % nm, r, stackv(nonlinear(S, q)))
            V.unchanged('frame', snap)


def rhs(V, dealias, whole):
    S = periodic(V, 'Bq2D', dealias)
    for S in rounds(V, S):
        c = S.c
        q, N = field(S, 'q', (3,)), field(S, 'N', (3,))
        c.Ur_hat[:] = q
        scribble(S, ['dU', 'ur_dealias', 'P_hat'])
        if whole:
            S.s.conv = S.s.getConvection('Vortex')
            n = nonlinear(S, q)
        else:
            def cv(rhs, *a):
                rhs[:] = N
                return rhs
            S.s.conv = cv
            n = [N[i] for i in range(3)]
        snap = V.snapshot(**ctx_arrays(c, ['Ur_hat', 'K', 'K2', 'K_over_K2', 'mask']))
        r = S.s.ComputeRHS(c.dU, c.u, S.s, **c)
        want, p = linear(S, n, q, maskarr(S))
        V.eq('d(u,rho)/dt', r, want)
        V.eq('pressure', c.P_hat, p)
        V.same_object('written in place', r, c.dU)
        V.unchanged('frame', snap)
        div = S.K[0]*r[0]+S.K[1]*r[1]
        V.eq('no divergence is produced', div, -S.nu*S.K2*(S.K[0]*q[0]+S.K[1]*q[1]))
        c.Ur_hat[2] = 0
        V.eq('density is the last component', c.rho_hat, zeros(S))
        V.eq('velocity is the first two', c.U_hat, stackv([q[0], q[1]]))
