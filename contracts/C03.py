"""Velocity-vorticity solver."""
from .common import *

META = dict(
    functions=['VV.getConvection', 'VV.compute_velocity', 'VV.add_linear', 'VV.ComputeRHS', 'VV.get_context', 'NS.Cross', 'maths.cross.cross1', 'maths.cross.cross2'],
    trusted=TRUSTED_FFT + TRUSTED_ENGINE, assumptions=[],
    bounded='random solenoidal vorticity fields on small meshes against a dense oracle')


def biot_savart(S, w):
    return [1j*x for x in cross3([safe_div(k, S.K2) for k in S.K], w)]


def nonlinear(S, w):
    Tp = S.c.Tp
    ux = [bwd(Tp, x) for x in biot_savart(S, w)]
    wx = [bwd(Tp, w[i]) for i in range(3)]
    v = [fwd(Tp, x) for x in cross3(ux, wx)]
    return [1j*x for x in cross3(S.K, v)]


def prove(V):
    for dealias in DEALIAS:
        V.case('VV convection, %s' % dealias, lambda: conv(V, dealias))
        V.case('VV right-hand side, %s' % dealias, lambda: rhs(V, dealias, True))
    V.case('VV right-hand side for any convection', lambda: rhs(V, '2/3-rule', False))


def conv(V, dealias):
    S = periodic(V, 'VV', dealias)
    for S in rounds(V, S):
        c = S.c
        f = S.s.getConvection('Vortex')
        for nm in ('w', 'w2'):
            w = field(S, nm, (3,))
            c.W_hat[:] = w
            scribble(S, ['dU', 'u_dealias'])
            snap = V.snapshot(**ctx_arrays(c, ['W_hat', 'K', 'K2', 'K_over_K2', 'Source', 'mask', 'U_hat']))
            r = f(c.dU, c.W_hat, c.work, c.Tp, c.VTp, c.K, c.K_over_K2, c.u_dealias)
            V.eq('curl(u x w), evaluation %s' % nm, r, stackv(nonlinear(S, w)))
            V.unchanged('frame', snap)


def rhs(V, dealias, whole):
    S = periodic(V, 'VV', dealias)
    for S in rounds(V, S):
        c = S.c
        w, Src, N = field(S, 'w', (3,)), field(S, 'S', (3,)), field(S, 'N', (3,))
        c.W_hat[:] = w
        c.Source[:] = Src
        scribble(S, ['dU', 'u_dealias', 'U_hat'])
        if whole:
            S.s.conv = S.s.getConvection('Vortex')
            n = nonlinear(S, w)
        else:
            def cv(rhs, *a):
                rhs[:] = N
                return rhs
            S.s.conv = cv
            n = [N[i] for i in range(3)]
        snap = V.snapshot(**ctx_arrays(c, ['W_hat', 'K', 'K2', 'K_over_K2', 'Source', 'mask']))
        r = S.s.ComputeRHS(c.dU, c.u, S.s, **c)
        m = maskarr(S)
        want = stackv([n[i]*m - S.nu*S.K2*w[i] + Src[i] for i in range(3)])
        V.eq('dw/dt', r, want)
        V.same_object('written in place', r, c.dU)
        V.same_object('the primary variable is the vorticity', c.u, c.W_hat)
        V.unchanged('frame', snap)
        if whole:
            div = S.K[0]*r[0] + S.K[1]*r[1] + S.K[2]*r[2]
            V.eq('the vorticity stays solenoidal', div, -S.nu*S.K2*(S.K[0]*w[0]+S.K[1]*w[1]+S.K[2]*w[2]) + S.K[0]*Src[0]+S.K[1]*Src[1]+S.K[2]*Src[2])
