"""Convection forms, vorticity, divergence and velocity gradient of the wall-bounded solvers equal their definitions."""
from .chanstep import *

KMMS = ('KMM', 'KMMr')
COUP = ('Coupled', 'CoupledRK3')
FORMS = ('Vortex', 'Standard', 'Divergence', 'Skew')

META = dict(
    functions=['spectralDNS.solvers.%s.%s' % (s, f) for s in KMMS for f in
               ('getConvection (four forms)', 'get_convection', 'standardConvection', 'divergenceConvection', 'compute_curl', 'get_curl', 'Cross',
                'compute_derivatives', 'get_divergence', 'get_velocity', 'set_velocity')] + ['spectralDNS.solvers.KMM.mult_K1j']
    + ['spectralDNS.solvers.%s.%s' % (s, f) for s in COUP for f in
       ('getConvection (four forms)', 'get_convection', 'standardConvection', 'divergenceConvection', 'compute_curl', 'Cross', 'get_divergence', 'get_velocity', 'set_velocity')]
    + ['spectralDNS.maths.cross.cross1', 'spectralDNS.shen.LUsolve.Mult_CTD_3D_ptr (by contract, C13)'],
    trusted=TRUSTED_CHAN + TRUSTED_ENGINE,
    assumptions=['the vorticity passed along (g) is the wall-normal vorticity of the velocity (established by every step, C10)',
                 'products are formed on the mesh of the dealiased space; wall-normal derivatives of products are projected on the Dirichlet space',
                 'different routes to the same wall-normal derivative give the same values (true for resolved fields; the 2/3-rule also truncates the wall-normal direction)'],
    bounded='real solvers on small meshes: all four forms, curl, divergence and gradient of random polynomial solenoidal fields against exact values, and of arbitrary states against dense matrices, scratch contents filled with garbage')


def space_of(S, i):
    return S.sp.B if (i == S.wall and S.solver not in COUP) else S.sp.D


def velocity(S, u, pd):
    return [evaluate(S, space_of(S, i), u[i], *pd) for i in range(3)]


def gradient(S, u, i, j, K, pd):
    """Values of the derivative of component i in direction j."""
    X = space_of(S, i)
    if j != S.wall:
        return evaluate(S, X, u[i]*K[j]*1j, *pd)
    Y = 'D' if i == S.wall else 'T'          # the wall-normal derivative of the wall-normal velocity vanishes on the walls
    return evaluate(S, getattr(S.sp, Y), ddx(S, Y, X.wb.kind, u[i]), *pd)


def vorticity_coeff(S, u, K):
    p, q = [(S.wall+1) % 3, (S.wall+2) % 3]
    return u[q]*K[p]*1j - u[p]*K[q]*1j


def vort(S, u, g, K, pd):
    out = []
    for i in range(3):
        j, k = (i+1) % 3, (i+2) % 3
        if i == S.wall and g is not None:
            out.append(evaluate(S, S.sp.D, g, *pd))
        else:
            out.append(gradient(S, u, k, j, K, pd) - gradient(S, u, j, k, K, pd))
    return out


def definitions(S, u, g, K):
    pd = pad(S.dealias)
    v = velocity(S, u, pd)
    Fw = lambda x: forward(S, S.sp.D, x, *pd)

    def standard():
        return [-Fw(sum((v[j]*gradient(S, u, i, j, K, pd) for j in (1, 2)), v[0]*gradient(S, u, i, 0, K, pd))) for i in range(3)]

    def divergence():
        p, q = S.par
        return [-(ddx(S, 'D', 'D', Fw(v[S.wall]*v[i])) + Fw(v[p]*v[i])*K[p]*1j + Fw(v[q]*v[i])*K[q]*1j) for i in range(3)]

    return {'Standard': standard, 'Divergence': divergence, 'Vortex': lambda: [Fw(x) for x in cross3(v, vort(S, u, g, K, pd))],
            'Skew': lambda: [0.5*(a+b) for a, b in zip(standard(), divergence())]}


SCRATCH = ('dU', 'H_hat', 'H_hat0', 'hv', 'hg', 'u_dealias', 'curl_hat', 'curl_dealias', 'u0_hat', 'h0_hat', 'w', 'w1')


def begin(V, solver, dealias, **kw):
    S = channel(V, solver, dealias=dealias, **kw)
    scribble(S, SCRATCH)
    return S


def state(S, name):
    """An arbitrary velocity and its wall-normal vorticity."""
    c = S.c
    u = field(S, name, (3,))
    c.U_hat[...] = u
    g = None
    if S.solver not in COUP:
        g = vorticity_coeff(S, u, S.K)
        c.g[...] = g
    return u, g


def frame(V, S, more=('U',)):
    c = S.c
    return V.snapshot(**ctx_arrays(c, list(more) + ['U_hat', 'UP_hat', 'g', 'K', 'Kx', 'K2', 'K4', 'Sk', 'Source', 'mask', 'H_hat1', 'U_hat0', 'UP_hat0', 'K_over_K2']))


def visits(V, S):
    """Evaluations 1 and 2 (which finds the scratch contents of the first one), one of a second problem of the same process,
    and one more of the first."""
    what = history(S)
    yield 1
    if what is None:
        yield 2
    for n, lab in enumerate(other_problem(V, S, what, lambda S: scribble(S, SCRATCH))):
        yield 3 + n


def conv(V, solver, form, dealias, **kw):
    S = begin(V, solver, dealias, **kw)
    dict.__setitem__(S.params, 'convection', form)
    f = S.s.getConvection(form)
    V.true('the form returned is the one asked for', f.convection == form)
    for n in visits(V, S):
        c = S.c
        u, g = state(S, 'u%d' % n)
        snap = frame(V, S)
        last = previous(V, S, n)
        r = S.s.get_convection(**c)
        want = definitions(S, u, g, waves(S))[form]()
        for i in range(3):
            same(V, S, 'evaluation %d: component %d of the %s form' % (n, i, form), r[i], want[i])
        V.unchanged('evaluation %d:' % n, snap)
        rotated(V, S, 'evaluation %d: ' % n, last)


def previous(V, S, n):
    """The convection of the step just taken, which the two-step solvers keep for the next one."""
    if 'H_hat1' not in S.c or 'RK3' in S.solver:
        return None
    last = field(S, 'H%d' % n, (3,))
    S.c.H_hat[...] = last
    return last


def rotated(V, S, lab, last):
    """Asking for a field between steps leaves what the next step extrapolates from as it was."""
    if last is not None:
        S.s.end_of_tstep(S.c)
        V.eq(lab + 'the next step extrapolates from the convection of the step taken', S.c.H_hat1, last)


def derived(V, solver, dealias='3/2-rule', **kw):
    S = begin(V, solver, dealias, **kw)
    for n in visits(V, S):
        c = S.c
        lab = 'evaluation %d: ' % n
        u, g = state(S, 'u%d' % n)
        last = previous(V, S, n)
        snap = frame(V, S, ())
        un = (1, False)
        K = S.K
        c.U[...] = SArr.named('V%d' % n, c.U.grid, (3,), 'float64')
        phys = V.snapshot(U=c.U)
        div = sum((gradient(S, u, a, a, K, un) for a in S.par), evaluate(S, S.sp.D, ddx(S, 'D', space_of(S, S.wall).wb.kind, u[S.wall]), *un))
        if solver in COUP and c.mask is not None:
            md = ddx(S, 'D', 'D', u[S.wall]) + sum((u[a]*K[a]*1j for a in S.par[1:]), u[S.par[0]]*K[S.par[0]]*1j)
            div = evaluate(S, S.sp.D, md*c.mask, *un)
        V.eq(lab + 'divergence', S.s.get_divergence(**c), div)
        if solver not in COUP:
            G = S.s.compute_derivatives(**c)
            for i in range(3):
                for j in range(3):
                    V.eq(lab + 'derivative of component %d along %d' % (i, j), G[i, j], gradient(S, u, i, j, K, un))
            out = chan.Array(c.VFSp)
            arr.garbage(out)
            w = S.s.get_curl(**dict(c, curl=out))
            for i, x in enumerate(vort(S, u, g, waves(S), pad(dealias))):
                V.eq(lab + 'vorticity component %d' % i, w[i], x)
            V.same_object(lab + 'vorticity written in place', w, out)
        V.unchanged(lab + 'physical velocity', phys)
        U = S.s.get_velocity(**c)
        V.eq(lab + 'velocity', U, stackv(velocity(S, u, un)))
        V.unchanged(lab, snap)
        rotated(V, S, lab, last)
        c.U[...] = X = SArr.named('U%d' % n, c.U.grid, (3,), 'float64')
        U_hat = S.s.set_velocity(**c)
        for i in range(3):
            V.eq(lab + 'set velocity %d' % i, U_hat[i], forward(S, space_of(S, i), X[i], *un))


def prove(V):
    for solver in KMMS + COUP:
        for dealias in DEALIAS:
            for form in FORMS:
                V.case('%s %s convection, %s' % (solver, form, dealias), lambda: conv(V, solver, form, dealias))
        V.case('%s derived fields' % solver, lambda: derived(V, solver))
        V.case('%s derived fields, 2/3-rule' % solver, lambda: derived(V, solver, '2/3-rule'))
        V.case('%s Standard convection, Gauss-Lobatto points' % solver, lambda: conv(V, solver, 'Standard', '3/2-rule', quad='GL'))
        V.case('%s Divergence convection, Gauss-Lobatto points' % solver, lambda: conv(V, solver, 'Divergence', '2/3-rule', quad='GL'))
    for form in FORMS:
        V.case('KMMRK3 %s convection' % form, lambda: conv(V, 'KMMRK3', form, '3/2-rule'))
    V.case('KMMRK3 derived fields', lambda: derived(V, 'KMMRK3'))
    for solver in RB:
        V.case('%s Vortex convection' % solver, lambda: conv(V, solver, 'Vortex', '3/2-rule'))
    V.case('mult_K1j', lambda: multk(V))


def multk(V):
    S = begin(V, 'KMM', '3/2-rule')
    c = S.c
    a = field(S, 'a')
    out = zeros(S, (2,))
    arr.garbage(out)
    r = S.s.mult_K1j(c.K, a, out)
    V.eq('component 0', r[0], a*S.K[2]*1j)
    V.eq('component 1', r[1], -(a*S.K[1]*1j))
