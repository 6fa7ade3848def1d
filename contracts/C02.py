"""Convective terms of the velocity solvers on the dealiased grid (NS: four forms; NS2D: rotational form)."""
from .common import *
from vc.sym import Unsupported

META = dict(
    functions=['NS.getConvection (Vortex, Standard, Divergence, Skewed)', 'NS.compute_curl', 'NS.Cross', 'NS.standard_convection',
               'NS.divergence_convection', 'maths.cross.cross1', 'maths.cross.cross2', 'NS2D.getConvection'],
    trusted=TRUSTED_FFT + TRUSTED_ENGINE,
    assumptions=['transforms are linear; products are formed on the grid of the dealiased space'],
    bounded='random band-limited fields against a dense-DFT oracle on small meshes, all four forms, both precisions')


def forms(S, u):
    """Specification: minus the convective term for velocity u_hat, per form."""
    c, K, d = S.c, S.K, S.dim
    B = lambda x: bwd(c.Tp, x)
    Fw = lambda x: fwd(c.Tp, x)
    ux = [B(u[i]) for i in range(d)]

    def standard():
        return [-Fw(sum((ux[j]*B(1j*K[j]*u[i]) for j in range(1, d)), ux[0]*B(1j*K[0]*u[i]))) for i in range(d)]

    def divergence():
        return [-sum((1j*K[j]*Fw(ux[i]*ux[j]) for j in range(1, d)), 1j*K[0]*Fw(ux[i]*ux[0])) for i in range(d)]

    def vortex():
        if d == 3:
            w = [B(1j*x) for x in cross3(K, u)]
            return [Fw(x) for x in cross3(ux, w)]
        w = B(1j*(K[0]*u[1]-K[1]*u[0]))
        return [Fw(ux[1]*w), Fw(-ux[0]*w)]

    return {'Standard': standard, 'Divergence': divergence, 'Vortex': vortex,
            'Skewed': lambda: [0.5*(a+b) for a, b in zip(standard(), divergence())]}


def prove(V):
    for dealias in DEALIAS:
        for form in ('Vortex', 'Standard', 'Divergence', 'Skewed'):
            V.case('NS %s convection, %s' % (form, dealias), lambda: conv(V, 'NS', form, dealias))
        V.case('NS2D Vortex convection, %s' % dealias, lambda: conv(V, 'NS2D', 'Vortex', dealias))
    V.case('cross products', lambda: crosses(V))
    V.case('cross products 2D', lambda: crosses2(V))


def conv(V, solver, form, dealias):
    S = periodic(V, solver, dealias)
    for S in rounds(V, S):
        c = S.c
        u = field(S, 'u', (S.dim,))
        c.U_hat[:] = u
        scribble(S, ['dU', 'u_dealias', 'P_hat'])
        snap = V.snapshot(**ctx_arrays(c, ['U_hat', 'K', 'K2', 'K_over_K2', 'Source', 'mask']))
        f = S.s.getConvection(form)
        args = dict(rhs=c.dU, u_hat=c.U_hat, work=c.work, Tp=c.Tp, VTp=c.VTp, K=c.K, u_dealias=c.u_dealias)
        r = f(c.dU, c.U_hat, c.work, c.Tp, c.VTp, c.K, c.u_dealias)
        want = stackv(forms(S, u)[form]())
        V.eq('%s form' % form, r, want)
        V.same_object('written in place', r, c.dU)
        V.unchanged('frame', snap)
        # once more: the result does not depend on what an earlier evaluation left in the buffers
        v = field(S, 'v', (S.dim,))
        c.U_hat[:] = v
        r = f(c.dU, c.U_hat, c.work, c.Tp, c.VTp, c.K, c.u_dealias)
        V.eq('%s form, second evaluation' % form, r, stackv(forms(S, v)[form]()))


def crosses(V):
    S = periodic(V, 'NS')
    for S in rounds(V, S):
        c = S.c
        m = S.L.load('spectralDNS.maths.cross')
        a, b = field(S, 'a', (3,), S.x, float), field(S, 'b', (3,), S.x, float)
        out = zeros(S, (3,), S.x, float)
        arr.garbage(out)
        snap = V.snapshot(a=a, b=b)
        V.eq('cross1 = a x b', m.cross1(out, a, b), stackv(cross3(a, b)))
        V.unchanged('cross1', snap)
        f = field(S, 'f', (3,))
        out = zeros(S, (3,))
        arr.garbage(out)
        snap = V.snapshot(f=f, **ctx_arrays(c, ['K', 'K_over_K2']))
        V.eq('cross2 = i K x f', m.cross2(out, c.K, f), stackv([1j*x for x in cross3(S.K, f)]))
        arr.garbage(out)
        V.eq('cross2 with K/K2', m.cross2(out, c.K_over_K2, f), stackv([1j*x for x in cross3([safe_div(k, S.K2) for k in S.K], f)]))
        V.unchanged('cross2', snap)


def crosses2(V):
    S = periodic(V, 'NS2D')
    for S in rounds(V, S):
        c = S.c
        m = S.L.load('spectralDNS.maths.cross')
        f = field(S, 'f', (2,))
        out = zeros(S)
        arr.garbage(out)
        V.eq('cross2 2D', m.cross2(out, c.K, f), 1j*(S.K[0]*f[1]-S.K[1]*f[0]))
        a, b = field(S, 'a', (2,), S.x, float), field(S, 'b', (2,), S.x, float)
        out = zeros(S, (), S.x, float)
        arr.garbage(out)
        V.eq('cross1 2D', m.cross1(out, a, b), a[0]*b[1]-a[1]*b[0])
