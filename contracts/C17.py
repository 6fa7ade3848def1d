"""Coupled velocity-pressure solvers: the assembled system and right-hand side are those of the declared scheme."""
from .chanstep import *

META = dict(
    functions=['spectralDNS.solvers.%s.%s' % (s, f) for s in ('Coupled', 'CoupledRK3') for f in ('get_context', 'getintegrator', 'integrate', 'ComputeRHS', 'end_of_tstep')]
    + ['spectralDNS.solvers.Coupled.assembleAB', 'spectralDNS.shen.Matrices.HelmholtzCoeff'],
    trusted=TRUSTED_CHAN + TRUSTED_ENGINE + ['shenfun inner/TestFunction/TrialFunction/div/grad: the bilinear form as written, one wall-normal matrix per term and mode',
                                            'shenfun BlockMatrix.solve: the solution satisfies every row of the block system at every mode, except the mean-mode rows named in the constraints'],
    assumptions=['the convection is an arbitrary field (C12)'],
    bounded='real solvers on small meshes: block residual, continuity, zero mean wall-normal velocity and level rotation of two steps against dense wall-normal matrices, two quadratures, one and two processes')


class CConv(Conv):
    def __call__(self, rhs, u_hat, K, *a, **k):
        S = self.S
        conv_arguments(S, (rhs, u_hat, K) + a, k)
        self.calls.append((clone(u_hat), clone(S.c.P_hat)))
        H = field(S, '%s%d_' % (self.name, len(self.calls)), (3,))
        self.calls[-1] += (H,)
        rhs[:] = H
        return rhs


def momentum(S, u1, u0, p1, H, theta=Fr(1)):
    """Residuals of the three momentum equations of one (sub)step, H the convection (weighted, including the forcing)."""
    out = []
    for i in range(3):
        lap = lambda a: m(S, 'D', 0, 'D', 2, a) - S.K2*m(S, 'D', 0, 'D', 0, a)
        gp = m(S, 'D', 0, 'T', 1, p1) if i == S.wall else (S.K[i]*1j)*m(S, 'D', 0, 'T', 0, p1)
        out.append(m(S, 'D', 0, 'D', 0, u1[i] - u0[i]) - lap(u1[i] + u0[i])*(S.nu*S.dt*theta*Fr(1, 2)) + gp*S.dt - H[i]*S.dt)
    return out


def continuity3(S, u):
    p, q = S.par
    return m(S, 'T', 0, 'D', 1, u[S.wall]) + (S.K[p]*1j)*m(S, 'T', 0, 'D', 0, u[p]) + (S.K[q]*1j)*m(S, 'T', 0, 'D', 0, u[q])


def forcing(S, H):
    r = []
    for i in range(3):
        w = m(S, 'D', 0, 'D', 0, H[i])
        r.append(w - S.c.Sk[i] if i == 1 else w)
    return r


def checks(V, S, lab, u0, u1, p1, H, theta=Fr(1), mean=True):
    for i, r in enumerate(momentum(S, u1, u0, p1, H, theta)):
        zero(V, S, '%s: momentum equation %d' % (lab, i), r, None if i else (modes(S) if mean else None))
    zero(V, S, lab + ': continuity', continuity3(S, u1), modes(S))


def pinned(V, S, lab, k0, n):
    mats = chan.BlockMatrix.LOG[k0:]
    V.true(lab + ': one system per stage', len(mats) == n)
    want = {(3, '0'), (3, 'last')}
    for b in mats:
        got = set()
        for blk, row, val in b.constraints:
            if not (Poly.of(val)).t:
                got.add((blk, 'last' if not (Poly.of(row) - (S.spec.dims[S.wall] - 1)).t else str(row)))
        V.true(lab + ': the mean pressure is pinned', got == want)


def begin(V, solver, rank, **kw):
    S = channel(V, solver, rank=rank, **kw)
    arm(S)
    return S


def arm(S):
    c = S.c
    S.conv = S.s.conv = CConv(S)
    S.mask = maskarr(S)
    S.step = S.s.getintegrator(c.dU, c.u, S.s, c)
    scribble(S, ('dU', 'H_hat', 'H_hat0', 'hv', 'u_dealias', 'curl_hat', 'curl_dealias'))
    c.UP_hat[...] = SArr.named('up' + S.round, S.spec, (4,), 'complex128')
    c.UP_hat0[...] = SArr.named('upprev' + S.round, S.spec, (4,), 'complex128')
    c.Sk[...] = SArr.named('Sk' + S.round, S.spec, (3,), 'complex128')
    c.U_hat[S.wall] = nomean(c.U_hat[S.wall])
    if 'H_hat1' in c:
        c.H_hat1[...] = SArr.named('Hprev' + S.round, S.spec, (3,), 'complex128')


def coupled(V, solver, rank=0, **kw):
    S = begin(V, solver, rank, **kw)
    what = history(S)
    for n in (1, 2) if what is None else (1,):
        coupled_step(V, S, 'step %d' % n, n)
    for n, lab in enumerate(other_problem(V, S, what, arm)):
        coupled_step(V, S, lab + 'step 1', 3 + n)


def coupled_step(V, S, lab, n):
    c, solver = S.c, S.solver
    u0 = clone(c.U_hat)
    H1 = clone(c.H_hat1) if solver == 'Coupled' else None
    snap = V.snapshot(Sk=c.Sk, **({'UP_hat0': c.UP_hat0, 'H_hat1': c.H_hat1} if solver == 'Coupled' else {}))
    S.conv.calls.clear()
    S.conv.name = 'H%d' % n
    k0 = len(chan.BlockMatrix.LOG)
    r = S.step()
    stages = 1 if solver == 'Coupled' else 3
    pinned(V, S, lab, k0, stages)
    if len(S.conv.calls) != stages:
        V.true(lab + ': the convection is evaluated once per stage', False)
        return
    V.eq(lab + ': the convection is first evaluated at the current velocity', S.conv.calls[0][0], u0)
    if solver == 'Coupled':
        H = (S.conv.calls[0][2]*Fr(3, 2) - H1*Fr(1, 2))*S.mask
        checks(V, S, lab, u0, c.U_hat, c.P_hat, forcing(S, H))
        if S.rank == 0:
            V.eq(lab + ': no mean wall-normal velocity', at(c.U_hat[S.wall], 'z'), at(zeros(S), 'z'))
    else:
        st = [(u, p) for u, p, _ in S.conv.calls] + [(c.U_hat, c.P_hat)]
        F = [forcing(S, h*S.mask) for _, _, h in S.conv.calls]
        for k in range(3):
            th = A3[k] + B3[k]
            G = [F[k][i]*A3[k] + (F[k-1][i]*B3[k] if k else zeros(S)) for i in range(3)]
            # the pressure gradient acts over the stage
            for i, res in enumerate(momentum(S, st[k+1][0], st[k][0], st[k+1][1], G, th)):
                zero(V, S, '%s stage %d: momentum equation %d' % (lab, k+1, i), res)
            zero(V, S, '%s stage %d: continuity' % (lab, k+1), continuity3(S, st[k+1][0]), modes(S))
    V.true(lab + ': the step returns the evolved array', isinstance(r, tuple) and len(r) == 3 and r[0] is c.UP_hat)
    V.eq(lab + ': the step size taken and proposed are the given one', r[1] - S.dt + (r[2] - S.dt)*1j, 0)
    V.unchanged(lab + ':', snap)
    end = clone(c.UP_hat)
    S.s.end_of_tstep(c)
    V.eq(lab + ': end of step keeps the fields', c.UP_hat, end)
    if solver == 'Coupled':
        V.eq(lab + ': end of step stores the fields as the previous level', c.UP_hat0, end)
        V.eq(lab + ': end of step stores the convection as the previous level', c.H_hat1, S.conv.calls[0][2])


def prove(V):
    for solver in ('Coupled', 'CoupledRK3'):
        V.case('%s step' % solver, lambda: coupled(V, solver))
        V.case('%s step on a process without the mean mode' % solver, lambda: coupled(V, solver, rank=1))
        V.case('%s step, Gauss-Lobatto points' % solver, lambda: coupled(V, solver, quad='GL'))
