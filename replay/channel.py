"""Wall-bounded solvers on small meshes: dense wall-normal matrices of shenfun as the reference (bounded)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import harness as H
import numpy as np
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
THOROUGH = os.environ.get('VERIF_TIER', 'quick') == 'thorough'
WALL = {'KMM': 0, 'KMMr': 2, 'KMMRK3': 0, 'KMM_RB': 0, 'KMMRK3_RB': 0, 'Coupled': 0, 'CoupledRK3': 0}
A3, B3 = (8/15., 5/12., 3/4.), (0., -17/60., -5/12.)
DROP = {'B': 4, 'D': 2, 'T': 0, 'R': 2}


def make(solver, N=None, dealias='3/2-rule', quad='GC', nu=0.02, dt=0.01, L=None, context=True, kappa=0.05, **kw):
    wall = WALL[solver]
    if N is None:
        N = [6, 8]
        N.insert(wall, 16)
    if L is None:
        L = [4*np.pi, 3.0]
        L.insert(wall, 2)
    elif L == 'other':
        L = [5.0, 2*np.pi]
        L.insert(wall, 2)
    extra = ['--Dquad', quad, '--Bquad', quad, '--dealias', dealias] + list(kw.pop('extra', ()))
    s = H.fresh(solver, 'channel', context=False, extra=extra, N=N, L=L, nu=nu, dt=dt, **kw)
    if solver.endswith('RB'):
        s.params.kappa = kappa
        s.params.Ra, s.params.Pr = 1000., 0.7
    if not context:
        return s
    with H.quiet():
        return s, s.get_context()


def chain(solver, sizes=True):
    """Problems of one process, each differing from the one before in a single respect; the first one again at the end."""
    i, j = [a for a in range(3) if a != WALL[solver]]
    L = [2., 2., 2.]
    L[i], L[j] = 4*np.pi, 3.0
    a = dict(nu=0.3, dt=0.05, L=list(L), quad='GC', dealias='3/2-rule', mask_nyquist=False)
    new = [('nu', 0.07), ('dt', 0.02)]
    if solver.endswith('RB'):
        a['kappa'] = 0.8
        new.append(('kappa', 0.02))
    for k, v in ((i, 5.0), (j, 2*np.pi)):
        L[k] = v
        new.append(('L', list(L)))
    new += [('quad', 'GL'), ('dealias', '2/3-rule'), ('mask_nyquist', True)]
    if sizes:
        N = [8, 6]
        N.insert(WALL[solver], 16)
        new.append(('N', N))
        N = [8, 6]
        N.insert(WALL[solver], 20)
        new.append(('N', N))
    out = [dict(a)]
    for k, v in new:
        a[k] = v
        out.append(dict(a))
    out.append(dict(out[0]))
    for n, x in enumerate(out):
        x['keep'] = n > 0
        x['tag'] = 'problem %d of a process, ' % (n+1)
    return out


class Dense:
    """Matrices of the wall-normal spaces, built by shenfun from spaces created here; wavenumbers from their definition."""

    def __init__(self, solver, s, c, quad):
        from shenfun import FunctionSpace
        self.wall = WALL[solver]
        self.par = [a for a in range(3) if a != self.wall]
        self.s, self.c = s, c
        self.N = int(s.params.N[self.wall])
        self.sp = {'B': FunctionSpace(self.N, 'C', bc=(0, 0, 0, 0), quad=quad), 'D': FunctionSpace(self.N, 'C', bc=(0, 0), quad=quad),
                   'T': FunctionSpace(self.N, 'C', quad=quad)}
        self.cache = {}
        N, L = s.params.N, s.params.L
        self.K, self.Kc = {}, {}
        for j, a in enumerate(self.par):
            n = int(N[a])
            k = np.fft.fftfreq(n, 1./n) if j == 0 else np.fft.rfftfreq(n, 1./n)
            sh = [1, 1, 1]
            sh[a] = len(k)
            self.K[a] = (k*2*np.pi/float(L[a])).reshape(sh)
            if solver == 'KMMr':        # highest frequency removed from the derivatives of the convection
                k = k.copy()
                k[n//2] = 0
            self.Kc[a] = (k*2*np.pi/float(L[a])).reshape(sh)
        p, q = self.par
        self.nyq = {a: int(N[a])//2 for a in self.par}
        self.sl = c.FST.local_slice(True)
        self.gmask = self._mask()
        self.owns = all(self.sl[a].start in (0, None) for a in self.par)
        for a in self.par:
            i = [slice(None)]*3
            i[a] = self.sl[a]
            self.K[a], self.Kc[a] = self.K[a][tuple(i)], self.Kc[a][tuple(i)]
        self.K2 = self.K[p]**2 + self.K[q]**2

    def mask(self):
        i = [slice(None)]*3
        for a in self.par:
            i[a] = self.sl[a]
        return self.gmask[tuple(i)]

    def _mask(self):
        """1 where no wall-parallel Nyquist frequency is involved."""
        m = np.ones(np.broadcast_shapes(*(self.K[a].shape for a in self.par)))
        for a in self.par:
            i = [slice(None)]*3
            i[a] = self.nyq[a]
            m[tuple(i)] = 0
        return m

    def mat(self, t, dt, u, du):
        k = (t, dt, u, du)
        if k not in self.cache:
            from shenfun.spectralbase import inner_product
            m = inner_product((self.sp[t], dt), (self.sp[u], du))
            self.cache[k] = np.asarray(m.diags().toarray(), dtype=float)*float(getattr(m, 'scale', 1.0))
        return self.cache[k]

    def m(self, t, dt, u, du, x):
        """Full-length result (the entries beyond the space's dimension are zero)."""
        A = self.mat(t, dt, u, du)
        y = np.moveaxis(np.asarray(x), self.wall, 0)[:A.shape[1]]
        r = np.tensordot(A, y, axes=(1, 0))
        out = np.zeros((self.N,) + r.shape[1:], dtype=complex)
        out[:A.shape[0]] = r
        return np.moveaxis(out, 0, self.wall)

    def trim(self, x, kind):
        x = np.moveaxis(x, self.wall, 0)
        if DROP[kind]:
            x[-DROP[kind]:] = 0
        return x

    def line(self, x):
        """Column of the mean mode."""
        i = [0, 0, 0]
        i[self.wall] = slice(None)
        return np.array(np.asarray(x)[tuple(i)])

    def nonmean(self, x):
        x = np.array(x)
        if self.owns:
            i = [0, 0, 0]
            i[self.wall] = slice(None)
            x[tuple(i)] = 0
        return x


def rel(terms):
    """Size of a sum of terms relative to its largest term."""
    tot = sum(terms)
    s = max([np.abs(t).max() for t in terms] + [1e-300])
    d = np.abs(tot).max()
    return float(d/s) if np.isfinite(d) else float('inf')


def randomize(rng, a, decay, wall):
    a[:] = rng.standard_normal(a.shape) + 1j*rng.standard_normal(a.shape)
    n = a.shape[-3:][wall]
    sh = [1]*a.ndim
    sh[a.ndim-3+wall] = n
    a[:] *= (decay**np.arange(n)).reshape(sh)


class StubConv:
    def __init__(self, D, rng):
        self.D, self.rng, self.calls = D, rng, []

    def __call__(self, rhs, u_hat, g_hat, *a, **k):
        h = np.zeros(rhs.shape, dtype=complex)
        randomize(self.rng, h, 0.8, self.D.wall)
        for i in range(3):
            self.D.trim(h[i], 'D')
        self.calls.append((np.array(u_hat), np.array(g_hat), h))
        rhs[:] = h
        return rhs


def kmm_state(c, D, rng):
    for a in ('U_hat', 'g', 'H_hat1', 'Sk'):
        if a in c:
            randomize(rng, c[a], 0.8, D.wall)
    for i in range(3):
        D.trim(c.U_hat[i], 'B' if i == D.wall else 'D')
        D.trim(c.Sk[i], 'B' if i == D.wall else 'D')
        if 'H_hat1' in c:
            D.trim(c.H_hat1[i], 'D')
    D.trim(c.g, 'D')
    c.g[:] = D.nonmean(c.g)
    if 'U_hat0' in c:
        c.U_hat0[:] = c.U_hat
    for a in ('hv', 'hg', 'dU', 'H_hat', 'H_hat0', 'u0_hat', 'h0_hat', 'w', 'w1', 'h1'):
        if a in c:
            c[a][...] = 3.25


def check_kmm_sub(R, name, D, s, c, before, after, parts, theta, which, extra_u=None):
    """One (sub)step from `before` to `after`; parts: (weight, masked convection)."""
    w, (p, q), K, K2 = D.wall, D.par, D.K, D.K2
    nu, dt = s.params.nu, s.params.dt
    (u0, g0), (u1, g1) = before, after
    tol = 1e-9
    nz = D.nonmean
    if which == 'C10':
        R.close(name + ': continuity', rel([nz(D.m('D', 0, 'B', 1, u1[w])), nz(1j*K[p]*D.m('D', 0, 'D', 0, u1[p])), nz(1j*K[q]*D.m('D', 0, 'D', 0, u1[q]))]), tol)
        R.close(name + ': vorticity', rel([nz(1j*K[p]*u1[q]), nz(-1j*K[q]*u1[p]), -nz(g1)]), tol)
        if D.owns:
            R.close(name + ': mean normal velocity', float(np.abs(D.line(u1[w])).max()), 1e-14)
    if which in ('C10', 'C11') and D.owns:
        for i, a in enumerate((p, q)):
            t = [D.m('D', 0, 'D', 0, u1[a]-u0[a]), -0.5*theta*nu*dt*D.m('D', 0, 'D', 2, u1[a]+u0[a])]
            for wt, h in parts:
                t.append(-wt*dt*D.m('D', 0, 'D', 0, h[a]))
                if i == 0:
                    t.append(wt*dt*np.array(D.trimmed(c.Sk[a])))
            R.close('%s: mean momentum %d' % (name, i), rel([D.line(x) for x in t]), tol)
    if which == 'C10':
        return
    B, Dm = (lambda du, x: D.m('B', 0, 'B', du, x)), (lambda du, x: D.m('D', 0, 'D', du, x))
    um, us = u1[w]-u0[w], u1[w]+u0[w]
    t = [B(2, um), -K2*B(0, um), -0.5*nu*dt*theta*B(4, us), nu*dt*theta*K2*B(2, us), -0.5*nu*dt*theta*K2**2*B(0, us)]
    gt = [Dm(0, g1-g0), -0.5*nu*dt*theta*Dm(2, g1+g0), 0.5*nu*dt*theta*K2*Dm(0, g1+g0)]
    for wt, h in parts:
        t += [wt*dt*K2*D.m('B', 0, 'D', 0, h[w]), wt*dt*1j*D.Kc[p]*D.m('B', 0, 'D', 1, h[p]), wt*dt*1j*D.Kc[q]*D.m('B', 0, 'D', 1, h[q])]
        gt += [-wt*dt*1j*D.Kc[p]*Dm(0, h[q]), wt*dt*1j*D.Kc[q]*Dm(0, h[p])]
    if extra_u is not None:
        t += extra_u
    R.close(name + ': wall-normal velocity equation', rel([nz(x) for x in t]), tol)
    R.close(name + ': wall-normal vorticity equation', rel([nz(x) for x in gt]), tol)


def _trimmed(self, x):
    y = np.array(x)
    z = np.moveaxis(y, self.wall, 0)
    z[-2:] = 0
    return y


Dense.trimmed = _trimmed


def run_kmm(R, solver, which, quad='GC', dealias='3/2-rule', nsteps=2, tag='', **kw):
    name = tag + '%s %s %s%s' % (solver, quad, dealias, ''.join(' %s=%s' % x for x in sorted(kw.items())))
    with R.guard(name):
        s, c = make(solver, quad=quad, dealias=dealias, **kw)
        D = Dense(solver, s, c, quad)
        rng = np.random.default_rng(SEED + (s.rank if isinstance(getattr(s, "rank", 0), int) else 0))
        kmm_state(c, D, rng)
        conv = s.conv = StubConv(D, rng)
        step = s.getintegrator(c.dU, c.u, s, c)
        msk = D.mask() if kw.get('mask_nyquist', True) else 1
        prev = np.array(c.H_hat1) if 'H_hat1' in c else None
        for k in range(nsteps):
            u0, g0 = np.array(c.U_hat), np.array(c.g)
            sk0 = np.array(c.Sk)
            conv.calls.clear()
            r = step()
            u1, g1 = np.array(c.U_hat), np.array(c.g)
            lab = '%s step %d' % (name, k)
            if solver in ('KMMRK3', 'KMMRK3_RB'):
                R.check(lab + ': evaluations', len(conv.calls) == 3, got=len(conv.calls))
                st = [(u, g) for u, g, _ in conv.calls] + [(u1, g1)]
                hs = [h*msk for _, _, h in conv.calls]
                for j in range(3):
                    parts = [(A3[j], hs[j])] + ([(B3[j], hs[j-1])] if j else [])
                    check_kmm_sub(R, '%s stage %d' % (lab, j), D, s, c, st[j], st[j+1], parts, A3[j]+B3[j], which)
                first = st[0]
            else:
                R.check(lab + ': evaluations', len(conv.calls) == 1, got=len(conv.calls))
                h = conv.calls[0][2]
                hab = (1.5*h-0.5*prev)*msk
                check_kmm_sub(R, lab, D, s, c, (u0, g0), (u1, g1), [(1., hab)], 1., which)
                first = conv.calls[0]
                prev = h
            if which == 'C11':
                R.close(lab + ': evaluated at the current state', max(float(np.abs(first[0]-u0).max()), float(np.abs(first[1]-g0).max())), 1e-13)
                R.check(lab + ': returns the state and the step size', r[0][0] is c.U_hat and r[0][1] is c.g and r[1] == r[2] == s.params.dt)
            R.check(lab + ': forcing unchanged', bool((np.asarray(c.Sk) == sk0).all()))
            with H.quiet():
                s.end_of_tstep(c)
            if which == 'C11' and 'H_hat1' in c:
                R.check(lab + ': end of step stores the velocity', bool((np.asarray(c.U_hat0) == u1).all()) and bool((np.asarray(c.U_hat) == u1).all()))
                R.check(lab + ': end of step stores the convection', bool((np.asarray(c.H_hat1) == h).all()))


def on_processes(R, script, n=2):
    """The same check on several MPI processes (skipped where mpiexec does not work)."""
    import subprocess, shutil as sh
    if os.environ.get('OMPI_COMM_WORLD_SIZE') or not sh.which('mpiexec'):
        return
    env = dict(os.environ, OMPI_MCA_btl_vader_single_copy_mechanism='none', OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1')
    try:
        p = subprocess.run(['mpiexec', '--oversubscribe', '-n', str(n), H.PY, '-B', os.path.abspath(script)], env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, timeout=200)
    except (subprocess.TimeoutExpired, OSError):
        return
    import json
    for l in p.stdout.decode(errors='replace').splitlines():
        if l.startswith('VCFAIL '):
            try:
                d = json.loads(l[7:])
            except ValueError:
                continue
            d['name'] = '%d processes: %s' % (n, d['name'])
            R.check(d.pop('name'), False, **d)
        elif l.startswith('VCJSON '):
            try:
                R.evals += json.loads(l[7:])['evaluations']
            except ValueError:
                pass


# ------------------------------------------------------------------------------------------------ temperature
def own_spaces(s, quad, dealias):
    """Spaces of the heat convection, created here."""
    from shenfun import FunctionSpace, TensorProductSpace
    N, L = s.params.N, s.params.L
    cf = dealias != '3/2-rule'
    F = [FunctionSpace(int(N[1]), 'F', domain=(0, float(L[1])), dtype='D'), FunctionSpace(int(N[2]), 'F', domain=(0, float(L[2])), dtype='d')]
    kw = {'padding_factor': 1.5 if dealias == '3/2-rule' else 1, 'dealias_direct': dealias == '2/3-rule'}
    sp = {}
    from spectralDNS.solvers.KMM import comm
    for k, bc in (('D', (0, 0)), ('B', (0, 0, 0, 0)), ('T', None)):
        b = FunctionSpace(int(N[0]), 'C', quad=quad) if bc is None else FunctionSpace(int(N[0]), 'C', bc=bc, quad=quad)
        T = TensorProductSpace(comm, [b] + F, collapse_fourier=cf, slab=True, modify_spaces_inplace=True)
        sp[k] = T
        sp[k + 'p'] = T.get_dealiased(**kw)
    # the temperature is truncated in the wall-parallel directions only
    sp['H'] = sp['D']
    sp['Hp'] = sp['Dp']
    if dealias == '2/3-rule':
        b = FunctionSpace(int(N[0]), 'C', bc=(0, 0), quad=quad)
        sp['Hp'] = TensorProductSpace(comm, (b, sp['Dp'].bases[1], sp['Dp'].bases[2]), dtype=complex,
                                      backward_from_pencil=sp['D'].forward.output_pencil)
    return sp


class Heat:
    """Reference evaluation of the convection of temperature."""

    def __init__(self, D, s, quad, dealias):
        from shenfun import Function
        self.D, self.sp, self.F, self.dealias = D, own_spaces(s, quad, dealias), Function, dealias

    def bwd(self, kind, a):
        f = self.F(self.sp[kind])
        f[:] = a
        return np.array(self.sp[kind + 'p'].backward(f))

    def fwd(self, kind, a):
        from shenfun import Array
        x = Array(self.sp[kind + 'p'])
        x[:] = a
        return np.array(self.sp[kind + 'p'].forward(x, self.F(self.sp[kind])))

    def values(self, u, phi):
        D = self.D
        lo, hi = phi[-2], phi[-1]
        hom = np.array(phi)
        hom[-2:] = 0
        lift = np.zeros_like(hom)
        lift[0], lift[1] = 0.5*(lo+hi), 0.5*(hi-lo)
        T = self.bwd('H', hom) + self.bwd('T', lift)
        return T, [self.bwd('B' if a == 0 else 'D', u[a]) for a in range(3)], hom, lift

    def divergence(self, u, phi):
        D = self.D
        T, v, hom, lift = self.values(u, phi)
        return D.m('D', 0, 'B', 1, D.trim(self.fwd('B', T*v[0]), 'B')) + 1j*D.K[1]*D.m('D', 0, 'D', 0, self.fwd('D', T*v[1])) \
            + 1j*D.K[2]*D.m('D', 0, 'D', 0, self.fwd('D', T*v[2]))

    def advection(self, u, phi):
        D = self.D
        T, v, hom, lift = self.values(u, phi)
        d = D.m('T', 0, 'D', 1, hom)
        dia = np.diag(D.mat('T', 0, 'T', 0)).reshape((-1, 1, 1))
        d = d/dia
        d[0] += lift[1]
        dT0 = self.bwd('T', d)
        n = v[0]*dT0 + v[1]*self.bwd('D', 1j*D.K[1]*hom) + v[2]*self.bwd('D', 1j*D.K[2]*hom)
        return D.m('D', 0, 'D', 0, self.fwd('D', n))


def rb_state(c, D, rng):
    kmm_state(c, D, rng)
    # real fields, so that products of values are those of the coefficients
    T = c.FST
    for i in range(3):
        S = c.FSB if i == D.wall else c.FST
        x = np.array(c.U_hat[i])
        f = c.U_hat[i].copy()
        f[:] = x
        f[:] = S.forward(S.backward(f).copy(), f.copy())
        c.U_hat[i] = f
    c.U_hat[D.wall] = D.nonmean(c.U_hat[D.wall])
    wall = (0.7, -0.3)
    for a in ('phi_hat', 'phi_hat0', 'phi_hat1', 'N_hat0', 'N_hat', 'phi_ab'):
        if a not in c:
            continue
        f = c.U_hat[1].copy()
        randomize(rng, f, 0.7, 0)
        f[:] = T.forward(T.backward(f).copy(), f.copy())
        c[a][:] = f
        c[a][-2:] = 0
        if D.owns and a.startswith('phi'):
            c[a][-2, 0, 0], c[a][-1, 0, 0] = wall
    if 'phi_hat0' in c:
        c.U_hat0[:] = c.U_hat
        c.phi_hat0[:] = c.phi_hat
    return wall


class RecordConv(StubConv):
    def __call__(self, *a, **k):
        r = StubConv.__call__(self, *a, **k)
        self.calls[-1] += (np.array(self.c.phi_hat),)
        return r


def check_heat(R, name, D, s, T0, T1, parts, theta):
    kap, dt = s.params.kappa, s.params.dt
    m = lambda du, x: D.m('D', 0, 'D', du, np.concatenate([x[:-2], 0*x[-2:]]))
    t = [m(0, T1-T0), -0.5*theta*kap*dt*m(2, T1+T0), 0.5*theta*kap*dt*D.K2*m(0, T1+T0)] + [w*dt*D.trimmed(n) for w, n in parts]
    R.close(name + ': temperature equation', rel(t), 1e-9)
    R.close(name + ': wall temperatures', float(np.abs(T1[-2:]-T0[-2:]).max()), 1e-15)


def run_rb(R, solver, quad='GC', dealias='3/2-rule', nsteps=3, which='C16', tag='', **kw):
    name = tag + '%s %s %s%s' % (solver, quad, dealias, ''.join(' %s=%s' % x for x in sorted(kw.items())))
    with R.guard(name):
        s, c = make(solver, quad=quad, dealias=dealias, **kw)
        D = Dense(solver, s, c, quad)
        Q = Heat(D, s, quad, dealias)
        rng = np.random.default_rng(SEED + s.rank)
        rb_state(c, D, rng)
        conv = s.conv = RecordConv(D, rng)
        conv.c = c
        step = s.getintegrator(c.dU, c.u, s, c)
        msk = D.mask() if kw.get('mask_nyquist', True) else 1
        prev = np.array(c.H_hat1) if 'H_hat1' in c else None
        for k in range(nsteps):
            lab = '%s step %d' % (name, k)
            u0, g0, T0, sk0 = np.array(c.U_hat), np.array(c.g), np.array(c.phi_hat), np.array(c.Sk)
            conv.calls.clear()
            if 'phi_hat0' in c:
                R.check(lab + ': latest level is the current temperature', bool((np.asarray(c.phi_hat0) == T0).all()))
                Tab = 1.5*np.array(c.phi_hat0) - 0.5*np.array(c.phi_hat1)
            r = step()
            u1, g1, T1 = np.array(c.U_hat), np.array(c.g), np.array(c.phi_hat)
            B = lambda T: D.m('B', 0, 'D', 0, np.concatenate([T[:-2], 0*T[-2:]]))
            if solver == 'KMM_RB':
                h = conv.calls[0][2]
                check_kmm_sub(R, lab, D, s, c, (u0, g0), (u1, g1), [(1., (1.5*h-0.5*prev)*msk)], 1., 'C11', [s.params.dt*D.K2*B(Tab)])
                check_kmm_sub(R, lab, D, s, c, (u0, g0), (u1, g1), [(1., (1.5*h-0.5*prev)*msk)], 1., 'C10')
                check_heat(R, lab, D, s, T0, T1, [(1., Q.divergence(u0, Tab)*msk)], 1.)
                prev = h
            else:
                st = [(x[0], x[1]) for x in conv.calls] + [(u1, g1)]
                Ts = [x[3] for x in conv.calls] + [T1]
                hs = [x[2]*msk for x in conv.calls]
                ns = [Q.advection(st[j][0], Ts[j])*msk for j in range(3)]
                R.close(lab + ': first stage at the current temperature', float(np.abs(Ts[0]-T0).max()), 1e-14)
                for j in range(3):
                    th = A3[j] + B3[j]
                    parts = lambda x: [(A3[j], x[j])] + ([(B3[j], x[j-1])] if j else [])
                    sl = '%s stage %d' % (lab, j)
                    check_kmm_sub(R, sl, D, s, c, st[j], st[j+1], parts(hs), th, 'C11', [th*s.params.dt*D.K2*B(Ts[j])])
                    check_kmm_sub(R, sl, D, s, c, st[j], st[j+1], parts(hs), th, 'C10')
                    check_heat(R, sl, D, s, Ts[j], Ts[j+1], parts(ns), th)
            R.check(lab + ': returns the state and the step size', len(r[0]) == 3 and r[0][0] is c.U_hat and r[0][1] is c.g and r[0][2] is c.phi_hat and r[1] == r[2] == s.params.dt)
            old0 = np.array(c.phi_hat0) if 'phi_hat0' in c else None
            with H.quiet():
                s.end_of_tstep(c)
            if old0 is not None:
                R.check(lab + ': end of step rotates the temperature levels', bool((np.asarray(c.phi_hat0) == T1).all()) and bool((np.asarray(c.phi_hat1) == old0).all())
                        and bool((np.asarray(c.phi_hat) == T1).all()))
                R.check(lab + ': end of step stores velocity and convection', bool((np.asarray(c.U_hat0) == u1).all()) and bool((np.asarray(c.H_hat1) == h).all()))


def exact_heat(R, solver, quad, dealias):
    """Convection of temperature against exact derivatives of resolved fields, and decay of conduction modes."""
    name = '%s %s %s exact fields' % (solver, quad, dealias)
    with R.guard(name):
        s, c = make(solver, N=[28, 12, 16], L=[2, 2*np.pi, 4*np.pi], quad=quad, dealias=dealias, kappa=0.3)
        D = Dense(solver, s, c, quad)
        x, y, z = [np.asarray(a) for a in c.FST.local_mesh(True)]
        from numpy.polynomial import Polynomial as P
        f = P([1, 0, -1])**2
        # vector potential (0, A1, A2)
        A1 = lambda d: (f*P([1, 1])).deriv(d)(x) if d else (f*P([1, 1]))(x)
        F = lambda d: f.deriv(d)(x) if d else f(x)
        X = lambda d: (f*P([0, 1])).deriv(d)(x) if d else (f*P([0, 1]))(x)
        S, C = np.sin, np.cos
        u = [X(0)*-S(y)*S(z/2) - (-0.5*A1(0)*S(y)*S(z/2) - 0.5*F(0)*S(y+z/2)), -(X(1)*C(y)*S(z/2) + F(1)*S(z/2)), A1(1)*S(y)*C(z/2) + F(1)*C(y+z/2)]
        g = P([1, 0, -1])
        lo, hi = 1., 0.           # the space's wall temperatures
        def temp(k):
            a, b = 1. + k, 2. - 0.5*k
            T = 0.5*(lo+hi) + 0.5*(hi-lo)*x + a*(g*P([0, 1]))(x)*S(y)*C(z/2) + b*g(x)*C(y)
            dT = [0.5*(hi-lo) + a*(g*P([0, 1])).deriv()(x)*S(y)*C(z/2) + b*g.deriv()(x)*C(y), a*(g*P([0, 1]))(x)*C(y)*C(z/2) - b*g(x)*S(y), -0.5*a*(g*P([0, 1]))(x)*S(y)*S(z/2)]
            return T + 0*c.phi, [np.asarray(d + 0*c.phi) for d in dT]
        for i in range(3):
            c.U[i] = u[i]
        c.U_hat[:] = s.set_velocity(**c)
        if 'U_hat0' in c:
            c.U_hat0[:] = c.U_hat
        T0, d0 = temp(0)
        T1, d1 = temp(1)
        c.phi[:] = T0
        c.phi_hat[:] = c.FRB.forward(c.phi, c.phi_hat.copy())
        grad = d0
        if 'phi_hat0' in c:
            c.phi_hat0[:] = c.phi_hat
            c.phi[:] = T1
            c.phi_hat1[:] = c.FRB.forward(c.phi, c.phi_hat.copy())
            grad = [1.5*a-0.5*b for a, b in zip(d0, d1)]
        n = c.U[0].copy()
        n[:] = sum(a*b for a, b in zip(u, grad))
        nh = D.m('D', 0, 'D', 0, np.array(c.FST.forward(n)))
        before = np.array(c.phi_hat)
        if solver == 'KMMRK3_RB':
            caught = []
            class Once(RecordConv):
                def __call__(self, *a, **k):
                    caught.append(np.array(c.phi_hat))
                    return StubConv.__call__(self, *a, **k)
            conv = s.conv = Once(D, np.random.default_rng(1))
        else:
            conv = s.conv = StubConv(D, np.random.default_rng(1))
        s.getintegrator(c.dU, c.u, s, c)()
        after = caught[1] if solver == 'KMMRK3_RB' else np.array(c.phi_hat)
        th = A3[0] if solver == 'KMMRK3_RB' else 1.
        check_heat(R, name, D, s, before, after, [(th, nh)], th)
        R.close(name + ': wall temperatures of the field', max(float(np.abs(before[-2, 0, 0]-lo)), float(np.abs(before[-1, 0, 0]-hi))) if D.owns else 0., 1e-10)


# ------------------------------------------------------------------------------------------------ coupled solvers
class CoupledConv:
    def __init__(self, D, rng, c):
        self.D, self.rng, self.c, self.calls = D, rng, c, []

    def __call__(self, rhs, u_hat, *a, **k):
        h = np.zeros(rhs.shape, dtype=complex)
        randomize(self.rng, h, 0.8, self.D.wall)
        for i in range(3):
            self.D.trim(h[i], 'D')
        self.calls.append((np.array(u_hat), np.array(self.c.P_hat), h))
        rhs[:] = h
        return rhs


def check_coupled(R, name, D, s, u0, u1, p1, F, theta, mean):
    nu, dt = s.params.nu, s.params.dt
    for i in range(3):
        lap = lambda x: D.m('D', 0, 'D', 2, x) - D.K2*D.m('D', 0, 'D', 0, x)
        gp = D.m('D', 0, 'T', 1, p1) if i == 0 else 1j*D.K[i]*D.m('D', 0, 'T', 0, p1)
        t = [D.m('D', 0, 'D', 0, u1[i]-u0[i]), -0.5*theta*nu*dt*lap(u1[i]+u0[i]), gp*dt, -dt*F[i]]
        if mean and i == 0:
            t = [D.nonmean(x) for x in t]
        R.close('%s: momentum equation %d' % (name, i), rel(t), 1e-8)
    t = [D.m('T', 0, 'D', 1, u1[0]), 1j*D.K[1]*D.m('T', 0, 'D', 0, u1[1]), 1j*D.K[2]*D.m('T', 0, 'D', 0, u1[2])]
    R.close(name + ': continuity', rel([D.nonmean(x) for x in t]), 1e-8)
    if D.owns:
        R.close(name + ': mean wall-normal velocity', float(np.abs(u1[0, :, 0, 0]).max()), 1e-14 if mean else 1e-8)


def run_coupled(R, solver, quad='GC', dealias='3/2-rule', nsteps=2, tag='', **kw):
    name = tag + '%s %s %s%s' % (solver, quad, dealias, ''.join(' %s=%s' % x for x in sorted(kw.items())))
    with R.guard(name):
        s, c = make(solver, quad=quad, dealias=dealias, **kw)
        D = Dense(solver, s, c, quad)
        rng = np.random.default_rng(SEED + s.rank)
        for a in ('U_hat', 'H_hat1', 'Sk'):
            if a in c:
                randomize(rng, c[a], 0.8, 0)
                for i in range(3):
                    D.trim(c[a][i], 'D')
        randomize(rng, c.P_hat, 0.8, 0)
        c.U_hat[0] = D.nonmean(c.U_hat[0])
        for a in ('hv', 'dU', 'H_hat', 'H_hat0'):
            if a in c:
                c[a][...] = 3.25
        conv = s.conv = CoupledConv(D, rng, c)
        step = s.getintegrator(c.dU, c.u, s, c)
        msk = D.mask() if kw.get('mask_nyquist', True) else 1
        prev = np.array(c.H_hat1) if 'H_hat1' in c else None
        def forcing(h):
            r = [D.m('D', 0, 'D', 0, h[i]*msk) for i in range(3)]
            r[1] = r[1] - D.trimmed(c.Sk[1])
            return r
        for k in range(nsteps):
            lab = '%s step %d' % (name, k)
            u0, sk0 = np.array(c.U_hat), np.array(c.Sk)
            conv.calls.clear()
            r = step()
            u1, p1 = np.array(c.U_hat), np.array(c.P_hat)
            R.close(lab + ': evaluated at the current velocity', float(np.abs(conv.calls[0][0]-u0).max()), 1e-14)
            if solver == 'Coupled':
                h = conv.calls[0][2]
                check_coupled(R, lab, D, s, u0, u1, p1, forcing(1.5*h-0.5*prev), 1., True)
                prev = h
            else:
                st = [(x[0], x[1]) for x in conv.calls] + [(u1, p1)]
                F = [forcing(x[2]) for x in conv.calls]
                for j in range(3):
                    th = A3[j] + B3[j]
                    G = [A3[j]*F[j][i] + (B3[j]*F[j-1][i] if j else 0) for i in range(3)]
                    check_coupled(R, '%s stage %d' % (lab, j), D, s, st[j][0], st[j+1][0], st[j+1][1], G, th, False)
            R.check(lab + ': returns the state and the step size', r[0] is c.UP_hat and r[1] == r[2] == s.params.dt)
            R.check(lab + ': forcing unchanged', bool((np.asarray(c.Sk) == sk0).all()))
            with H.quiet():
                s.end_of_tstep(c)
            R.check(lab + ': end of step keeps the velocity', bool((np.asarray(c.U_hat) == u1).all()))
            if prev is not None:
                R.check(lab + ': end of step stores the levels', bool((np.asarray(c.U_hat0) == u1).all()) and bool((np.asarray(c.P_hat0) == p1).all())
                        and bool((np.asarray(c.H_hat1) == h).all()))


# ------------------------------------------------------------------------------------------------ exact fields
class Trig:
    """Sum over wall-parallel modes of Re(polynomial(x) exp(i k.y)): exact products and derivatives at any points."""

    def __init__(self, wall, par, L, modes):
        self.wall, self.par, self.L, self.modes = wall, par, L, modes        # modes: {(mp, mq): polynomial coefficients, lowest first}

    def d(self, axis):
        from numpy.polynomial import polynomial as P
        out = {}
        for k, a in self.modes.items():
            if axis == self.wall:
                out[k] = P.polyder(a)
            else:
                out[k] = a*1j*k[self.par.index(axis)]*2*np.pi/float(self.L[axis])
        return Trig(self.wall, self.par, self.L, out)

    def __call__(self, X):
        from numpy.polynomial import polynomial as P
        tot = 0.
        for (mp, mq), a in self.modes.items():
            p, q = self.par
            ph = np.exp(1j*2*np.pi*(mp*X[p]/float(self.L[p]) + mq*X[q]/float(self.L[q])))
            tot = tot + (P.polyval(X[self.wall], a)*ph).real
        return tot


def trig_velocity(rng, wall, par, L, biharmonic=True):
    """Random velocity vanishing on the walls (the wall-normal component with its derivative); not solenoidal."""
    from numpy.polynomial import polynomial as P
    b = np.array([1., 0, -1.])
    out = []
    for i in range(3):
        modes = {}
        for k in ((0, 0), (1, 0), (0, 1), (1, 1), (-1, 1), (2, 1)):
            a = rng.standard_normal(3) + 1j*rng.standard_normal(3)
            modes[k] = P.polymul(P.polymul(b, b) if i == wall and biharmonic else b, a)
        out.append(Trig(wall, par, L, modes))
    return out


def dirty(c, rng):
    for v in c.work._data.values():
        v[...] = 7.5
    for n in ('H_hat', 'H_hat0', 'dU', 'hv', 'hg', 'u_dealias', 'curl_hat', 'curl_dealias'):
        if n in c:
            c[n][...] = 3.25


def run_conv(R, solver, quad='GC', dealias='3/2-rule', derived=True, tag='', **kw):
    wall = WALL[solver]
    N = [12, 10]
    N.insert(wall, 24)
    coup = solver.startswith('Coupled')
    name = tag + '%s %s %s%s' % (solver, quad, dealias, ''.join(' %s=%s' % x for x in sorted(kw.items())))
    with R.guard(name):
        s, c = make(solver, N=N, quad=quad, dealias=dealias, **kw)
        par = [a for a in range(3) if a != wall]
        X = c.FST.local_mesh(True)
        rng = np.random.default_rng(SEED)
        D = Dense(solver, s, c, quad)
        for n in range(2):
            F = trig_velocity(rng, wall, par, s.params.L)
            u = [f(X) for f in F]
            G = [[F[i].d(j)(X) for j in range(3)] for i in range(3)]
            for i in range(3):
                c.U[i] = u[i]
            with H.quiet():
                s.set_velocity(**c)
            U0 = np.array(c.U_hat)
            c.U[:] = 0
            V = s.get_velocity(**c)
            R.close('%s: set and get velocity %d' % (name, n), max(float(np.abs(V[i]-u[i]).max()) for i in range(3)), 1e-11)
            p, q = [(wall+1) % 3, (wall+2) % 3]
            if 'g' in c:
                c.g[:] = 1j*D.K[p]*U0[q] - 1j*D.K[q]*U0[p]
            om = [G[(i+2) % 3][(i+1) % 3] - G[(i+1) % 3][(i+2) % 3] for i in range(3)]
            std = [-sum(u[j]*G[i][j] for j in range(3)) for i in range(3)]
            dvg = sum(G[j][j] for j in range(3))
            want = {'Standard': std, 'Divergence': [a-u[i]*dvg for i, a in enumerate(std)],
                    'Skew': [a-0.5*u[i]*dvg for i, a in enumerate(std)], 'Vortex': [u[(i+1) % 3]*om[(i+2) % 3] - u[(i+2) % 3]*om[(i+1) % 3] for i in range(3)]}
            for form in ('Vortex', 'Standard', 'Divergence', 'Skew'):
                lab = '%s: %s convection, evaluation %d' % (name, form, n)
                dirty(c, rng)
                s.params.convection = form
                with R.guard(lab):
                    r = s.get_convection(**c)
                    R.check(lab + ': velocity unchanged', bool((np.asarray(c.U_hat) == U0).all()))
                    z = c.U.copy()
                    for i in range(3):
                        f = np.array(c.FST.backward(r[i], z[i]))
                        R.close('%s, component %d' % (lab, i), float(np.abs(f-want[form][i]).max()/max(1., np.abs(want[form][i]).max())), 1e-9)
            if not derived:
                continue
            lab = '%s: derived fields %d' % (name, n)
            with R.guard(lab):
                dirty(c, rng)
                phys = np.array(c.U)
                R.close(lab + ': divergence', float(np.abs(np.array(s.get_divergence(**c))-dvg).max()), 1e-8)
                if hasattr(s, 'compute_derivatives'):
                    dirty(c, rng)
                    A = np.array(s.compute_derivatives(**c))
                    R.close(lab + ': velocity gradient', max(float(np.abs(A[i, j]-G[i][j]).max()) for i in range(3) for j in range(3)), 1e-8)
                if hasattr(s, 'get_curl'):
                    from shenfun import Array
                    dirty(c, rng)
                    out = Array(c.VFSp)          # the vorticity is delivered on the dealiased mesh
                    out[:] = 5.
                    Xp = c.FSTp.local_mesh(True)
                    Gp = lambda i, j: F[i].d(j)(Xp)
                    w = s.get_curl(**dict(c, curl=out))
                    for i in range(3):
                        ex = Gp((i+2) % 3, (i+1) % 3) - Gp((i+1) % 3, (i+2) % 3)
                        R.close('%s: vorticity component %d' % (lab, i), float(np.abs(np.array(w[i])-ex).max()), 1e-8)
                R.check(lab + ': velocity unchanged', bool((np.asarray(c.U_hat) == U0).all()) and bool((np.asarray(c.U) == phys).all()))


def reports(R, solver, quad='GC', nsteps=3):
    """Asking for fields between the steps (as the update hook may) does not change the steps."""
    from shenfun import Array
    coup = solver.startswith('Coupled')
    asks = {'': None, 'get_convection': lambda s, c: s.get_convection(**c), 'get_divergence': lambda s, c: s.get_divergence(**c),
            'get_velocity': lambda s, c: s.get_velocity(**c)}
    if not coup:
        asks['compute_derivatives'] = lambda s, c: s.compute_derivatives(**c)
        asks['get_curl'] = lambda s, c: s.get_curl(**dict(c, curl=Array(c.VFSp)))
    if solver in ('KMM', 'KMM_RB'):
        asks['get_pressure'] = lambda s, c: s.get_pressure(c, s)
    first = None
    for form in ('Vortex', 'Divergence'):
        if form == 'Divergence' and (coup or solver.endswith('RB')):
            continue
        for what, ask in asks.items():
            name = '%s %s %s: steps with %s asked for between them' % (solver, quad, form, what or 'nothing')
            with R.guard(name):
                s, c = make(solver, quad=quad)
                s.params.convection = form
                s.conv = s.getConvection(form)
                rng = np.random.default_rng(SEED)
                for n in sorted(k for k in c if k in ('U_hat', 'g', 'H_hat1', 'phi_hat', 'P_hat', 'U_hat0')):
                    randomize(rng, c[n], 0.5, WALL[solver])
                step = s.getintegrator(c.dU, c.u, s, c)
                for k in range(nsteps):
                    step()
                    if ask:
                        with H.quiet():
                            ask(s, c)
                    s.end_of_tstep(c)
                out = [np.array(c[n]) for n in ('U_hat', 'g', 'phi_hat') if n in c]
                if ask is None:
                    first = out
                else:
                    for i, (x, y) in enumerate(zip(out, first)):
                        R.close('%s, state %d' % (name, i), float(np.abs(x-y).max()/max(1e-300, np.abs(y).max())), 1e-12)


def run_conv_random(R, solver, quad='GC'):
    """Arbitrary (not low-mode) states without dealiasing: derivatives by numpy on Chebyshev coefficients."""
    from numpy.polynomial import chebyshev as Ch
    name = '%s %s arbitrary state' % (solver, quad)
    wall = WALL[solver]
    with R.guard(name):
        s, c = make(solver, quad=quad, dealias='None')
        D = Dense(solver, s, c, quad)
        rng = np.random.default_rng(SEED + s.rank)
        X = c.FST.local_mesh(True)
        n = D.N
        par = D.par
        kinds = ['B' if i == wall and not solver.startswith('Coupled') else 'D' for i in range(3)]
        ph = c.U.copy()
        ph[:] = rng.standard_normal(ph.shape)
        c.U[:] = ph
        with H.quiet():
            s.set_velocity(**c)
        for i in range(3):
            c.U_hat[i] *= D.mask()
        if solver.startswith('Coupled'):
            # the wall-normal derivative of the wall-normal velocity vanishes on the walls (continuity)
            t = c.FST.shape(True)
            b = np.zeros(t, dtype=complex)
            y = np.moveaxis(b, wall, 0)
            src = np.moveaxis(np.array(c.U_hat[wall]), wall, 0)
            for k in range(n-4):
                e = np.zeros(n)
                e[k], e[k+2], e[k+4] = 1, -2*(k+2)/(k+3), (k+1)/(k+3)
                # T combination as a Dirichlet one: d_j = e_j + d_{j-2}
                d = np.zeros(n)
                for j in range(n-2):
                    d[j] = e[j] + (d[j-2] if j > 1 else 0)
                y += d.reshape((n,)+(1,)*(y.ndim-1))*src[k]
            c.U_hat[wall] = b
        U0 = np.array(c.U_hat)

        def cheb(a, kind):
            """Chebyshev coefficients, wall axis first."""
            a = np.moveaxis(np.array(a), wall, 0)
            out = np.zeros((n,)+a.shape[1:], dtype=complex)
            k = np.arange(n)
            if kind == 'D':
                for j in range(n-2):
                    out[j] += a[j]
                    out[j+2] -= a[j]
            else:
                for j in range(n-4):
                    out[j] += a[j]
                    out[j+2] -= 2*(j+2)/(j+3)*a[j]
                    out[j+4] += (j+1)/(j+3)*a[j]
            return out

        def values(co):
            f = c.T_hat if 'T_hat' in c else None
            from shenfun import Function, Array
            h = Function(c.FCT)
            z = np.zeros((n,)+co.shape[1:], dtype=complex)
            z[:co.shape[0]] = co
            h[:] = np.moveaxis(z, 0, wall)
            return np.array(c.FCT.backward(h, Array(c.FCT)))
        C = [cheb(U0[i], kinds[i]) for i in range(3)]

        def der(i, j):
            if j == wall:
                return values(Ch.chebder(C[i], axis=0))
            return values(C[i]*np.moveaxis(1j*D.K[j]*np.ones(c.FST.shape(True)), wall, 0)) if np.ndim(C[i]) else None
        u = [values(x) for x in C]
        G = [[der(i, j) for j in range(3)] for i in range(3)]
        p, q = [(wall+1) % 3, (wall+2) % 3]
        if 'g' in c:
            c.g[:] = 1j*D.K[p]*U0[q] - 1j*D.K[q]*U0[p]
        om = [G[(i+2) % 3][(i+1) % 3] - G[(i+1) % 3][(i+2) % 3] for i in range(3)]
        z = c.U.copy()

        def fwd(a):
            z[0] = a
            return np.array(c.FST.forward(z[0], c.H_hat[0].copy()))
        std = [-fwd(sum(u[j]*G[i][j] for j in range(3))) for i in range(3)]
        dvg = []
        inv = np.linalg.inv(D.mat('D', 0, 'D', 0))
        for i in range(3):
            y = np.moveaxis(D.m('D', 0, 'D', 1, fwd(u[wall]*u[i])), wall, 0)
            x = np.zeros_like(y)
            x[:n-2] = np.tensordot(inv, y[:n-2], axes=(1, 0))
            dvg.append(-(np.moveaxis(x, 0, wall) + sum(1j*D.Kc[a]*fwd(u[a]*u[i]) for a in par)))
        want = {'Standard': std, 'Divergence': dvg, 'Skew': [0.5*(a+b) for a, b in zip(std, dvg)],
                'Vortex': [fwd(u[(i+1) % 3]*om[(i+2) % 3] - u[(i+2) % 3]*om[(i+1) % 3]) for i in range(3)]}
        for form in want:
            lab = '%s: %s convection' % (name, form)
            s.params.convection = form
            with R.guard(lab):
                dirty(c, rng)
                r = np.array(s.get_convection(**c))
                for i in range(3):
                    R.close('%s, component %d' % (lab, i), rel([r[i], -want[form][i]]), 1e-8)
                R.check(lab + ': velocity unchanged', bool((np.asarray(c.U_hat) == U0).all()))
