"""Magnetohydrodynamics solver."""
from .common import *

META = dict(
    functions=['MHD.getConvection', 'MHD.divergenceConvection', 'MHD.set_Elsasser', 'MHD.add_pressure_diffusion', 'MHD.ComputeRHS', 'MHD.get_context'],
    trusted=TRUSTED_FFT + TRUSTED_ENGINE, assumptions=[],
    bounded='random velocity and magnetic fields on small meshes against a dense oracle')


def nonlinear(S, ub):
    Tp, K = S.c.Tp, S.K
    x = [bwd(Tp, ub[i]) for i in range(6)]
    u, b = x[:3], x[3:]
    out = []
    for i in range(3):
        out.append(-sum((1j*K[j]*fwd(Tp, u[i]*u[j]-b[i]*b[j]) for j in range(1, 3)), 1j*K[0]*fwd(Tp, u[i]*u[0]-b[i]*b[0])))
    for i in range(3):
        out.append(sum((1j*K[j]*fwd(Tp, u[i]*b[j]-b[i]*u[j]) for j in range(1, 3)), 1j*K[0]*fwd(Tp, u[i]*b[0]-b[i]*u[0])))
    return out


def linear(S, n, ub, mask, eta):
    K, K2, nu = S.K, S.K2, S.nu
    M = [x*mask for x in n]
    p = safe_div(K[0]*M[0]+K[1]*M[1]+K[2]*M[2], K2)
    return stackv([M[i] - K[i]*p - nu*K2*ub[i] for i in range(3)] + [M[i] - eta*K2*ub[i] for i in range(3, 6)]), p


def prove(V):
    for dealias in DEALIAS:
        V.case('MHD convection, %s' % dealias, lambda: conv(V, dealias))
        V.case('MHD right-hand side, %s' % dealias, lambda: rhs(V, dealias, False))
    V.case('MHD right-hand side with its convection', lambda: rhs(V, '3/2-rule', True))


def conv(V, dealias):
    S = periodic(V, 'MHD', dealias)
    for S in rounds(V, S):
        c = S.c
        f = S.s.getConvection('Divergence')
        for nm in ('q', 'r'):
            ub = field(S, nm, (6,))
            c.UB_hat[:] = ub
            scribble(S, ['dU', 'ub_dealias', 'ZZ_hat'])
            snap = V.snapshot(**ctx_arrays(c, ['UB_hat', 'K', 'K2', 'K_over_K2', 'mask']))
            r = f(c.dU, c.UB_hat, c.Tp, c.VMp, c.K, c.ub_dealias, c.ZZ_hat)
            V.eq('momentum and induction, evaluation %s' % nm, r, stackv(nonlinear(S, ub)))
            V.unchanged('frame', snap)


def rhs(V, dealias, whole):
    S = periodic(V, 'MHD', dealias)
    for S in rounds(V, S):
        c = S.c
        ub, N = field(S, 'q', (6,)), field(S, 'N', (6,))
        c.UB_hat[:] = ub
        scribble(S, ['dU', 'ub_dealias', 'ZZ_hat', 'P_hat'])
        if whole:
            S.s.conv = S.s.getConvection('Divergence')
            n = nonlinear(S, ub)
        else:
            def cv(rhs, *a):
                rhs[:] = N
                return rhs
            S.s.conv = cv
            n = [N[i] for i in range(6)]
        snap = V.snapshot(**ctx_arrays(c, ['UB_hat', 'K', 'K2', 'K_over_K2', 'mask']))
        r = S.s.ComputeRHS(c.dU, c.u, S.s, **c)
        want, p = linear(S, n, ub, maskarr(S), S.params.eta)
        V.eq('d(u,b)/dt', r, want)
        V.eq('pressure', c.P_hat, p)
        V.same_object('written in place', r, c.dU)
        V.same_object('the primary variable holds velocity and magnetic field', c.u, c.UB_hat)
        V.unchanged('frame', snap)
        c.UB_hat[:3] = 0
        V.eq('velocity is the first half of the primary variable', c.U_hat, zeros(S, (3,)))
        V.eq('magnetic field is the second half', c.B_hat, stackv([ub[i] for i in range(3, 6)]))
        if whole:
            divb = S.K[0]*r[3]+S.K[1]*r[4]+S.K[2]*r[5]
            V.eq('the magnetic field stays solenoidal', divb, -S.params.eta*S.K2*(S.K[0]*ub[3]+S.K[1]*ub[4]+S.K[2]*ub[5]))
