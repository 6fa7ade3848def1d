"""Pressure projection, diffusion, source and Nyquist mask of the velocity equations (NS, NS2D)."""
from .common import *

META = dict(
    functions=['spectralDNS.solvers.NS.ComputeRHS', 'spectralDNS.solvers.NS.add_pressure_diffusion', 'spectralDNS.solvers.NS.get_context', 'spectralDNS.solvers.NS2D.get_context'],
    trusted=TRUSTED_FFT[1:] + TRUSTED_ENGINE,
    assumptions=['the convection function is replaced by its contract: it may return any field (decided separately)',
                 'decomposition over several MPI processes is not modelled'],
    bounded='random fields on small meshes, 2D/3D, odd/even/anisotropic, masks on/off, single and double precision, against the numpy formula')


def spec(N, u, Src, mask, K, K2, nu, dim):
    """The right-hand side of the projected momentum equation, per mode."""
    M = [N[i]*mask for i in range(dim)]
    p = M[0]*K[0]
    for i in range(1, dim):
        p = p + M[i]*K[i]
    p = safe_div(p, K2)
    return stackv([M[i] - K[i]*p - nu*K2*u[i] + Src[i] for i in range(dim)]), p


def prove(V):
    for solver in ('NS', 'NS2D'):
        for dealias in (DEALIAS if V.tier == 'thorough' else ('2/3-rule', '3/2-rule')):
            V.case('%s right-hand side, %s' % (solver, dealias), lambda: rhs(V, solver, dealias))
        V.case('%s add_pressure_diffusion contract' % solver, lambda: apd(V, solver))


def rhs(V, solver, dealias):
    S = periodic(V, solver, dealias)
    for S in rounds(V, S):
        c, dim = S.c, S.dim
        u = field(S, 'u', (dim,))
        Src = field(S, 'S', (dim,))
        N = field(S, 'N', (dim,))
        c.U_hat[:] = u
        c.Source[:] = Src
        scribble(S, ['dU', 'P_hat', 'u_dealias'])

        def conv(rhs, u_hat, *a):
            rhs[:] = N
            return rhs
        S.s.conv = conv
        snap = V.snapshot(**ctx_arrays(c, ['U_hat', 'Source', 'K', 'K2', 'K_over_K2', 'mask']))
        r = S.s.ComputeRHS(c.dU, c.U_hat, S.s, **c)
        want, p = spec(N, u, Src, maskarr(S), S.K, S.K2, S.nu, dim)
        V.same_object('the right-hand side is written in place', r, c.dU)
        V.eq('du/dt', r, want)
        V.eq('pressure', c.P_hat, p)
        V.unchanged('frame', snap)
        # incompressibility lemma over the contract
        div = r[0]*S.K[0]
        for i in range(1, dim):
            div = div + r[i]*S.K[i]
        rest = -S.nu*S.K2*sum((S.K[i]*u[i] for i in range(1, dim)), S.K[0]*u[0]) + sum((S.K[i]*Src[i] for i in range(1, dim)), S.K[0]*Src[0])
        V.eq('divergence of the non-linear part vanishes', div, rest)


def apd(V, solver):
    """Function contract, with K2 and K_over_K2 given only through their representation invariant."""
    S = periodic(V, solver)
    for S in rounds(V, S):
        c, dim = S.c, S.dim
        f = getattr(S.s, 'add_pressure_diffusion', None)
        if f is None:
            raise sym.Unsupported('add_pressure_diffusion is gone')
        u, N = field(S, 'u', (dim,)), field(S, 'N', (dim,))
        V.eq('K2 = |K|^2', c.K2, S.K2)
        V.eq('K_over_K2 = K/|K|^2', c.K_over_K2, stackv([safe_div(k, S.K2) for k in S.K]))
        c.U_hat[:] = u
        c.dU[:] = N
        scribble(S, ['P_hat'])
        snap = V.snapshot(**ctx_arrays(c, ['U_hat', 'K', 'K2', 'K_over_K2']))
        try:
            r = f(c.dU, c.U_hat, S.nu, c.K2, c.K, c.P_hat, c.K_over_K2)
        except TypeError as e:
            raise sym.Unsupported('signature changed: %s' % e)
        want, p = spec(N, u, zeros(S, (dim,)), 1, S.K, S.K2, S.nu, dim)
        V.eq('result', r, want)
        V.eq('pressure', c.P_hat, p)
        V.unchanged('frame', snap)
