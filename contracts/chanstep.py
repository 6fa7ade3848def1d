"""One step of the wall-bounded Navier-Stokes solvers, for an arbitrary convection field."""
from .chancommon import *
import numpy as _np
from fractions import Fraction as Fr
from vc.sym import ContractFailure

A3, B3 = (Fr(8, 15), Fr(5, 12), Fr(3, 4)), (Fr(0), Fr(-17, 60), Fr(-5, 12))
RK3 = ('KMMRK3', 'KMMRK3_RB')


def clone(x):
    return SArr(x.val.copy(), x.grid, x.gax, x.pts, x.dtype)


def conv_arguments(S, a, k):
    """Precondition of the convection: spaces, wavenumbers, matrices and scratch are the context's own (C12 is proved for those)."""
    import inspect
    if getattr(S, 'convsig', None) is None:
        S.convsig = inspect.signature(S.s.getConvection(S.params.convection))
    try:
        b = S.convsig.bind(*a, **k).arguments
    except TypeError as e:
        raise ContractFailure('the convection is called with other arguments than it takes: %s' % e)
    for nm, v in b.items():
        if nm in ('rhs', 'u_hat', 'g_hat'):
            continue
        want = S.c.get('Kx' if nm == 'K' and S.solver == 'KMMr' else nm)
        if want is not None and v is not want:
            raise ContractFailure('the convection is given %s for its argument %s' % (next((n for n, x in S.c.items() if x is v), 'something else'), nm))


class Conv:
    """Arbitrary convection; records the state it is evaluated at."""

    def __init__(self, S, mode='in place'):
        self.S, self.mode, self.calls, self.name, self.extra = S, mode, [], 'H', None

    def __call__(self, rhs, u_hat, g_hat, K, *a, **k):
        S = self.S
        conv_arguments(S, (rhs, u_hat, g_hat, K) + a, k)
        self.calls.append((clone(u_hat), clone(g_hat)))
        if self.extra:
            self.extra()
        H = field(S, '%s%d_' % (self.name, len(self.calls)), (3,))
        self.calls[-1] += (H,)
        if self.mode == 'in place':
            rhs[:] = H
            return rhs
        r = chan._mk(rhs.space, rhs.grid, 'complex128') if isinstance(rhs, chan.ChanArr) else clone(rhs)
        r[:] = H
        return r


def ready(V, solver, rank=0, **kw):
    """The solver module with stubbed convection, in an arbitrary state."""
    S = channel(V, solver, rank=rank, **kw)
    arm(S)
    return S


def arm(S):
    """Stubbed convection, scratch and state of the current context arbitrary."""
    solver, c = S.solver, S.c
    S.conv = Conv(S)
    S.s.conv = S.conv
    S.mask = maskarr(S)
    S.step = S.s.getintegrator(c.dU, c.u, S.s, c)
    scribble(S, ('hv', 'hg', 'u0_hat', 'h0_hat', 'w', 'w1', 'dU', 'H_hat', 'H_hat0', 'u_dealias', 'h1'))
    for a, n in ((c.U_hat, 'u'), (c.g, 'g'), (c.Sk, 'Sk')):
        a[...] = SArr.named(n + S.round, S.spec, a.comps, 'complex128')
    c.g[...] = nomean(c.g)
    if 'U_hat0' in c:
        c.U_hat0[...] = c.U_hat
    if 'H_hat1' in c:
        c.H_hat1[...] = SArr.named('Hprev' + S.round, S.spec, (3,), 'complex128')
    if solver in RB:
        S.wallT = [poly.atom('Twall%d' % i + S.round, 'Twall%d' % i + S.round) for i in (0, 1)]
        scribble(S, ('phi', 'phi0', 'phi_ab', 'UCN', 'Ua', 'N_hat', 'N_hat0'))
        c.phi_hat[...] = temperature(S, 'phi' + S.round)
        if 'phi_hat0' in c:
            c.phi_hat0[...] = c.phi_hat
            c.phi_hat1[...] = temperature(S, 'phiprev' + S.round)
        else:
            c.N_hat0[...] = SArr.named('Nprev' + S.round, S.spec, (), 'complex128')     # b[0] = 0: any contents


def temperature(S, name):
    """An arbitrary temperature with the given wall values (zero at the nonzero modes)."""
    a = SArr.named(name, S.spec, (), 'complex128')
    for j, p in enumerate(a.pts):
        for mono in a.val[j].t:
            chan.HOMOG.add(mono[0][0])
        if S.spec.labels[p] == 'z':
            s = S.spec.sites[p]
            a.val[j] = a.val[j] + chan.unit(-2, s)*S.wallT[0] + chan.unit(-1, s)*S.wallT[1]
    return a


def wallvalues(S, a, i):
    return SArr(_np.array([chan.elem(i, v) for v in a.val], dtype=object), a.grid, tuple((ax, f and ax != S.wall) for ax, f in a.gax), a.pts, a.dtype)


def hom(a):
    r = clone(a)
    for j in range(len(r.pts)):
        r.val[j] = sum((Poly({mm: cc}) for mm, cc in r.val[j].t.items() if chan.ELEM.get(chan.split_col(mm)[1], 0) >= 0), Poly({}))
    return r


def evalT(S, phi):
    """Temperature at the (padded) points: a truncation acts on the wall-parallel directions only."""
    U, (padding, direct) = S.U, pad(S.dealias)
    bs = []
    for i in range(3):
        b = chan.Basis('C', 'R', U.spec.dims[i], S.quad, (1, 0)) if i == S.wall else chan.Basis('F', 'F', U.spec.dims[i])
        b = b.get_dealiased(padding, direct and i != S.wall)
        bs.append(b)
    T = chan.WTPS(U, None, bs)
    out = SArr.full(T.pgrid(), (), 'float64')
    out.val[0] = T._bwd(list(phi.val), phi.sites())
    return out


def heat_flux_divergence(S, u, phi):
    """Weak (test space D) divergence of the heat flux u*phi."""
    pd = pad(S.dealias)
    p, q = S.par
    T = evalT(S, phi)
    v = {a: evaluate(S, S.sp.B if a == S.wall else S.sp.D, u[a], *pd) for a in range(3)}
    return m(S, 'D', 0, 'B', 1, forward(S, S.sp.B, T*v[S.wall], *pd)) \
        + m(S, 'D', 0, 'D', 0, forward(S, S.sp.D, T*v[p], *pd)*S.K[p]*1j) + m(S, 'D', 0, 'D', 0, forward(S, S.sp.D, T*v[q], *pd)*S.K[q]*1j)


def heat_convection(S, u, phi):
    """Weak (test space D) u . grad(phi)."""
    pd = pad(S.dealias)
    h = hom(phi)
    lift = clone(phi)
    for j, pt in enumerate(phi.pts):
        lift.val[j] = chan.unit(0, phi.grid.sites[pt])*((chan.elem(-1, phi.val[j]) - chan.elem(-2, phi.val[j]))*Fr(1, 2))
    dT = {S.wall: evaluate(S, S.sp.T, ddx(S, 'T', 'D', h) + lift, *pd)}
    for a in S.par:
        dT[a] = evaluate(S, S.sp.D, h*S.K[a]*1j, *pd)
    v = {a: evaluate(S, S.sp.B if a == S.wall else S.sp.D, u[a], *pd) for a in range(3)}
    N = sum((v[a]*dT[a] for a in S.par), v[S.wall]*dT[S.wall])
    return m(S, 'D', 0, 'D', 0, forward(S, S.sp.D, N, *pd))


def eqn_T(S, T1, T0, N, theta=Fr(1)):
    lap = lambda a: m(S, 'D', 0, 'D', 2, a) - S.K2*m(S, 'D', 0, 'D', 0, a)
    return m(S, 'D', 0, 'D', 0, T1 - T0) - lap(T1 + T0)*(S.kappa*S.dt*theta*Fr(1, 2)) + N*S.dt


def buoyancy(S, T):
    return -S.K2*m(S, 'B', 0, 'D', 0, T)


def walls(V, S, lab, T1, T0):
    for i in (-2, -1):
        same(V, S, '%s: wall temperature %d' % (lab, i), wallvalues(S, T1, i), wallvalues(S, T0, i))


def nomean(a):
    r = clone(a)
    for j, p in enumerate(r.pts):
        if r.grid.labels[p] == 'z':
            r.val[..., j] = Poly.of(0)
    return r


def scaled(a, k):
    return a*k


def eqn_u(S, u1, u0, rhs, theta=Fr(1)):
    """Residual of the wall-normal velocity equation, theta*dt the length of the (sub)step, rhs the weak right-hand side."""
    lap = lambda u: m(S, 'B', 0, 'B', 2, u) - S.K2*m(S, 'B', 0, 'B', 0, u)
    bih = lambda u: m(S, 'B', 0, 'B', 4, u) - (S.K2*2)*m(S, 'B', 0, 'B', 2, u) + S.K4*m(S, 'B', 0, 'B', 0, u)
    return lap(u1 - u0) - bih(u1 + u0)*(S.nu*S.dt*theta*Fr(1, 2)) - rhs


def eqn_g(S, g1, g0, rhs, theta=Fr(1)):
    lap = lambda u: m(S, 'D', 0, 'D', 2, u) - S.K2*m(S, 'D', 0, 'D', 0, u)
    return m(S, 'D', 0, 'D', 0, g1 - g0) - lap(g1 + g0)*(S.nu*S.dt*theta*Fr(1, 2)) - rhs


def eqn_mean(S, v1, v0, rhs, theta=Fr(1)):
    return m(S, 'D', 0, 'D', 0, v1 - v0) - m(S, 'D', 0, 'D', 2, v1 + v0)*(S.nu*S.dt*theta*Fr(1, 2)) - rhs


def waves(S):
    """Wavenumbers of the convection's derivatives."""
    if S.solver != 'KMMr':
        return S.K
    K = {}
    for a in S.par:
        r = SArr.full(S.spec, (), 'float64')
        for p, s in enumerate(S.spec.sites):
            if S.spec.labels[p] != 'z':
                r.val[p] = S.U.wavenumber(a, s, True, True)
        K[a] = r
    return K


def weak_u(S, H):
    K, (p, q) = waves(S), S.par
    return -S.K2*m(S, 'B', 0, 'D', 0, H[S.wall]) - (K[p]*1j)*m(S, 'B', 0, 'D', 1, H[p]) - (K[q]*1j)*m(S, 'B', 0, 'D', 1, H[q])


def weak_g(S, H):
    K, (p, q) = waves(S), S.par
    return (K[p]*1j)*m(S, 'D', 0, 'D', 0, H[q]) - (K[q]*1j)*m(S, 'D', 0, 'D', 0, H[p])


def solved(a):
    """Eliminate the highest operator of every solved column by the equation its solver guarantees."""
    r = clone(a)
    for ix in _np.ndindex(r.val.shape):
        r.val[ix] = chan.reduce(r.val[ix])
    return r


def zero(V, S, name, a, labels=None):
    z = zeros(S, a.comps)
    same(V, S, name, solved(a), z, labels)


def vorticity(S, u):
    p, q = S.par
    return (S.K[p]*1j)*u[q] - (S.K[q]*1j)*u[p]


def continuity(S, u):
    p, q = S.par
    return m(S, 'D', 0, 'B', 1, u[S.wall]) + (S.K[p]*1j)*m(S, 'D', 0, 'D', 0, u[p]) + (S.K[q]*1j)*m(S, 'D', 0, 'D', 0, u[q])


def recovered(V, S, lab, u, g):
    """C10 at the nonzero modes and the mean wall-normal velocity."""
    nz = modes(S)
    zero(V, S, lab + ': discrete continuity', continuity(S, u), nz)
    zero(V, S, lab + ': the wall-parallel velocities have the solved wall-normal vorticity', vorticity(S, u) - g, nz)
    if S.rank == 0:
        V.eq(lab + ': no mean wall-normal velocity', at(u[S.wall], 'z'), at(zeros(S), 'z'))
        V.eq(lab + ': no mean wall-normal vorticity', at(solved(g), 'z'), at(zeros(S), 'z'))


def means(V, S, lab, u1, u0, H, theta=Fr(1), parts=None):
    """Mean wall-parallel momentum; parts: (weight, convection) pairs adding up to the right-hand side."""
    if S.rank:
        return
    p, q = S.par
    for i, a in enumerate((p, q)):
        rhs = sum(((m(S, 'D', 0, 'D', 0, h[a]) - (S.c.Sk[a] if i == 0 else zeros(S)))*(S.dt*w) for w, h in parts), zeros(S))
        zero(V, S, '%s: mean momentum in the %s direction' % (lab, ('streamwise', 'spanwise')[i]), eqn_mean(S, u1[a], u0[a], rhs, theta), ['z'])


def cn_step(V, S, lab, which, conv=None):
    """One step of the two-level scheme."""
    c = S.c
    u0, g0, H1 = clone(c.U_hat), clone(c.g), clone(c.H_hat1)
    rb = S.solver in RB
    snap = V.snapshot(U_hat0=c.U_hat0, Sk=c.Sk, **({'phi_hat0': c.phi_hat0, 'phi_hat1': c.phi_hat1} if rb else {}))
    if rb:
        T0, Tab = clone(c.phi_hat), c.phi_hat0*Fr(3, 2) - c.phi_hat1*Fr(1, 2)
    S.conv.calls.clear()
    S.conv.name = 'H' + lab.replace(' ', '')
    r = S.step()
    if len(S.conv.calls) != 1:
        V.true(lab + ': the convection is evaluated once', False)
        return
    cu, cg, H = S.conv.calls[0]
    u1, g1 = c.U_hat, c.g
    Hab = (H*Fr(3, 2) - H1*Fr(1, 2))*S.mask
    ret = (c.U_hat, c.g) + ((c.phi_hat,) if rb else ())
    if which == 'C16':
        zero(V, S, lab + ': wall-normal velocity equation with buoyancy',
             eqn_u(S, u1[S.wall], u0[S.wall], (weak_u(S, Hab) + buoyancy(S, Tab))*S.dt), modes(S))
        zero(V, S, lab + ': wall-normal vorticity equation', eqn_g(S, g1, g0, weak_g(S, Hab)*S.dt), modes(S))
        zero(V, S, lab + ': temperature equation', eqn_T(S, c.phi_hat, T0, heat_flux_divergence(S, u0, Tab)*S.mask))
        walls(V, S, lab, c.phi_hat, T0)
        V.true(lab + ': the step returns the evolved arrays', isinstance(r, tuple) and len(r) == 3 and len(r[0]) == 3 and all(x is y for x, y in zip(r[0], ret)))
        V.eq(lab + ': the step size taken and proposed are the given one', r[1] - S.dt + (r[2] - S.dt)*1j, 0)
    elif which == 'C10':
        recovered(V, S, lab, u1, g1)
        means(V, S, lab, u1, u0, None, parts=[(Fr(1), Hab)])
    else:
        V.eq(lab + ': the convection is evaluated at the current velocity', cu, u0)
        V.eq(lab + ': the convection is evaluated at the current vorticity', cg, g0)
        zero(V, S, lab + ': wall-normal velocity equation', eqn_u(S, u1[S.wall], u0[S.wall], weak_u(S, Hab)*S.dt), modes(S))
        zero(V, S, lab + ': wall-normal vorticity equation', eqn_g(S, g1, g0, weak_g(S, Hab)*S.dt), modes(S))
        means(V, S, lab, u1, u0, None, parts=[(Fr(1), Hab)])
        V.true(lab + ': the step returns the evolved arrays', isinstance(r, tuple) and len(r) == 3 and r[0][0] is c.U_hat and r[0][1] is c.g)
        V.eq(lab + ': the step size taken and proposed are the given one', r[1] - S.dt + (r[2] - S.dt)*1j, 0)
    V.unchanged(lab + ':', snap)
    uend = clone(c.U_hat)
    if rb:
        tend, tp = clone(c.phi_hat), clone(c.phi_hat0)
    S.s.end_of_tstep(c)
    if rb and which == 'C16':
        V.eq(lab + ': end of step keeps the temperature', c.phi_hat, tend)
        V.eq(lab + ': end of step stores the temperature as the latest level', c.phi_hat0, tend)
        V.eq(lab + ': end of step stores the latest level as the one before', c.phi_hat1, tp)
    if which in ('C11', 'C16'):
        V.eq(lab + ': end of step keeps the velocity', c.U_hat, uend)
        V.eq(lab + ': end of step stores the velocity as the previous level', c.U_hat0, uend)
        V.eq(lab + ': end of step stores the convection as the previous level', c.H_hat1, H)


def rk_step(V, S, lab, which):
    c = S.c
    u0, g0 = clone(c.U_hat), clone(c.g)
    rb = S.solver in RB
    snap = V.snapshot(Sk=c.Sk)
    temps = []
    if rb:
        T0 = clone(c.phi_hat)
        S.conv.extra = lambda: temps.append(clone(c.phi_hat))
    S.conv.calls.clear()
    S.conv.name = 'H' + lab.replace(' ', '')
    r = S.step()
    if len(S.conv.calls) != 3:
        V.true(lab + ': the convection is evaluated once per stage', False)
        return
    st = [(u, g) for u, g, _ in S.conv.calls] + [(c.U_hat, c.g)]
    H = [h*S.mask for _, _, h in S.conv.calls]
    if rb:
        temps.append(clone(c.phi_hat))
        V.eq(lab + ': the first stage starts from the current temperature', temps[0], T0)
        N = [heat_convection(S, st[k][0], temps[k])*S.mask for k in range(3)] if which == 'C16' else None
    if which in ('C11', 'C16'):
        V.eq(lab + ': the first stage starts from the current velocity', st[0][0], u0)
        V.eq(lab + ': the first stage starts from the current vorticity', st[0][1], g0)
    for k in range(3):
        (v0, w0), (v1, w1) = st[k], st[k+1]
        sl = '%s stage %d' % (lab, k+1)
        parts = [(A3[k], H[k])] + ([(B3[k], H[k-1])] if k else [])
        th = A3[k] + B3[k]
        if which == 'C10':
            recovered(V, S, sl, v1, w1)
            means(V, S, sl, v1, v0, None, th, parts)
        else:
            hu = sum((weak_u(S, h)*(S.dt*w) for w, h in parts), zeros(S))
            if rb:
                hu = hu + buoyancy(S, temps[k])*(S.dt*th)
                n = N[k]*A3[k] + (N[k-1]*B3[k] if k else zeros(S))
                zero(V, S, sl + ': temperature equation', eqn_T(S, temps[k+1], temps[k], n, th))
                walls(V, S, sl, temps[k+1], temps[k])
            hg = sum((weak_g(S, h)*(S.dt*w) for w, h in parts), zeros(S))
            zero(V, S, sl + ': wall-normal velocity equation', eqn_u(S, v1[S.wall], v0[S.wall], hu, th), modes(S))
            zero(V, S, sl + ': wall-normal vorticity equation', eqn_g(S, w1, w0, hg, th), modes(S))
            if which == 'C11':
                means(V, S, sl, v1, v0, None, th, parts)
    if which in ('C11', 'C16'):
        ret = (c.U_hat, c.g) + ((c.phi_hat,) if rb else ())
        V.true(lab + ': the step returns the evolved arrays', isinstance(r, tuple) and len(r) == 3 and len(r[0]) == len(ret) and all(x is y for x, y in zip(r[0], ret)))
        V.eq(lab + ': the step size taken and proposed are the given one', r[1] - S.dt + (r[2] - S.dt)*1j, 0)
    V.unchanged(lab + ':', snap)


def steps(V, solver, which, rank=0, **kw):
    S = ready(V, solver, rank, **kw)
    step = rk_step if solver in RK3 else cn_step
    what = history(S)
    for k in (1, 2) if what is None else (1,):
        step(V, S, 'step %d' % k, which)
    for lab in other_problem(V, S, what, arm):
        step(V, S, lab + 'step 1', which)
