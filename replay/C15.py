"""Real output files of real runs: when they are written and what they hold."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from periodic import *
import h5py

R = H.Report('C15')
H.enter_scratch(); H.use()
PRIMARY = {'NS': 'U', 'NS2D': 'U', 'VV': 'curl', 'MHD': 'UB', 'Bq2D': 'Ur', 'KMM': 'U', 'KMMr': 'U', 'KMMRK3': 'U', 'Coupled': 'UP', 'CoupledRK3': 'UP', 'KMM_RB': 'U', 'KMMRK3_RB': 'U'}
LEVELS = {'KMM': {'0': {'U': 'U_hat'}, '1': {'U': 'U_hat0'}}, 'KMMr': {'0': {'U': 'U_hat'}, '1': {'U': 'U_hat0'}}, 'KMMRK3': {'0': {'U': 'U_hat'}},
          'KMM_RB': {'0': {'U': 'U_hat', 'phi': 'phi_hat'}, '1': {'U': 'U_hat0', 'phi': 'phi_hat0'}},
          'KMMRK3_RB': {'0': {'U': 'U_hat', 'phi': 'phi_hat'}},
          'Coupled': {'0': {'UP': 'UP_hat'}, '1': {'UP': 'UP_hat0'}}, 'CoupledRK3': {'0': {'UP': 'UP_hat'}},
          'NS': {'0': {'U': 'U_hat'}}, 'NS2D': {'0': {'U': 'U_hat'}}, 'VV': {'0': {'curl': 'W_hat'}}, 'MHD': {'0': {'UB': 'UB_hat'}}, 'Bq2D': {'0': {'Ur': 'Ur_hat'}}}


def shown(solver, c, dim):
    K, K2 = kmats(c, dim) if solver in MESH else (None, None)
    if solver in ('NS', 'NS2D'):
        return {'U': np.array([B(c.T, x) for x in c.U_hat]), 'P': B(c.T, -1j*c.P_hat)}
    if solver == 'VV':
        u = 1j*kcross(k_over(K, K2), np.array(c.W_hat))
        return {'U': np.array([B(c.T, x) for x in u]), 'curl': np.array([B(c.T, x) for x in c.W_hat])}
    if solver == 'MHD':
        return {'UB': np.array([B(c.T, x) for x in c.UB_hat])}
    if solver == 'Bq2D':
        return {'UR': np.array([B(c.T, x) for x in c.Ur_hat])}
    from shenfun import Array
    d = {}
    sp = [c.U_hat[i].function_space() for i in range(3)]
    d['U'] = np.array([np.array(sp[i].backward(np.array(c.U_hat[i]), Array(sp[i]))) for i in range(3)])
    if 'phi_hat' in c:
        d['phi'] = np.array(c.FRB.backward(np.array(c.phi_hat), Array(c.FRB)))
    return d


def datasets(fn):
    """{path: array} of the step datasets."""
    out = {}
    if not os.path.exists(fn):
        return out, {}
    with h5py.File(fn, 'r') as f:
        def visit(n, o):
            if isinstance(o, h5py.Dataset) and 'mesh' not in n and 'domain' not in n:
                out[n] = np.array(o)
        f.visititems(visit)
        return out, {k: v for k, v in f.attrs.items()}


def compare(name, fn, want_by_step, dim, attrs=None):
    got, at = datasets(fn)
    want = {}
    for step, d in want_by_step.items():
        for g, a in d.items():
            want['%s/%dD/%d' % (g, dim, step)] = a
    R.check(name + ': exactly the expected data sets', set(got) == set(want), extra=sorted(set(got)-set(want))[:6], missing=sorted(set(want)-set(got))[:6])
    for k in sorted(set(got) & set(want)):
        R.close('%s: %s' % (name, k), H.relerr(np, got[k], np.asarray(want[k])), 1e-9)
    for k, v in (attrs or {}).items():
        R.check('%s: attribute %s' % (name, k), k in at and abs(float(at[k])-float(v)) < 1e-12, got=repr(at.get(k)), want=v)


def split(d, dim):
    out = {}
    for g, a in d.items():
        a = np.asarray(a)
        if a.ndim > dim:
            for i in range(a.shape[0]):
                out[g+str(i)] = a[i]
        else:
            out[g] = a
    return out


def whole(d, dim):
    """Checkpoint data: vectors in one data set."""
    return {g: np.array(a) for g, a in d.items()}


def run(solver, wr, cp, nsteps, dt=0.01, stop_at=None, filemode='w'):
    name = '%s results every %s, checkpoints every %s' % (solver, wr, cp) + (', stop file at step %d' % stop_at if stop_at else '')
    R.at(name)
    for f in os.listdir('.'):
        if f.endswith('.h5') or f == 'killspectraldns':
            os.unlink(f)
    if solver in MESH:
        dim = 2 if solver in ('NS2D', 'Bq2D') else 3
        s, c = make(solver, N=np.array([8, 6, 10][:dim]), L=L3(dim), dealias='2/3-rule', convection=forms(solver)[0], integrator='RK4', dt=dt, T=dt*nsteps,
                    write_result=wr, checkpoint=cp, filemode=filemode)
        rng = np.random.default_rng(SEED)
        randomize(c, c.u, c.u.function_space(), rng)
        c.u *= 0.1
    else:
        dim = 3
        s = H.fresh(solver, 'channel', context=False, M=[4, 3, 2][::-1 if solver == 'KMMr' else 1], L=[2, 2*np.pi, 2*np.pi][::-1 if solver == 'KMMr' else 1], dt=dt, T=dt*nsteps, nu=0.1, write_result=wr, checkpoint=cp, filemode=filemode,
                    convection='Vortex')
        if solver.endswith('RB'):
            s.params.kappa = 0.3
        with H.quiet():
            c = s.get_context()
        rng = np.random.default_rng(SEED)
        c.Sk[1, 0, 0, 0] = -0.1
        wall = 2 if solver == 'KMMr' else 0

        def fill(a):
            a = np.moveaxis(a, wall, 0)
            a[:6] += 0.01*rng.standard_normal(a[:6].shape)
        fill(c.U_hat[1])
        for n in ('phi_hat', 'phi_hat0', 'phi_hat1'):
            if n in c:
                fill(c[n])
        for n in ('U_hat0', 'UP_hat0', 'H_hat1'):
            if n in c:
                for i in range(3):
                    fill(np.asarray(c[n])[i])
    res, chk, last = {}, {}, {}
    stopped = False
    seen, before = [], {}

    def update(context):
        p = s.params
        n = int(p.tstep)
        seen.append(n)
        if stop_at == n:
            open('killspectraldns', 'w').close()
        if n % wr == 0:
            res[n] = split(shown(solver, c, dim), dim)
        if n % cp == 0 or stop_at == n:
            for l, d in LEVELS[solver].items():
                chk[int(l)] = whole({g: before.get(v, c[v]) for g, v in d.items()}, dim)
            last.update(tstep=n, t=float(p.t))
        for d in LEVELS[solver].values():
            for v in d.values():
                before[v + '0'] = np.array(c[v])          # level 1 of the next step
    s.update = update
    code = None
    with H.quiet():
        try:
            H_solve(s, c)
        except SystemExit as e:
            code = e
    R.check(name + ': exit only on request', (code is not None) == (stop_at is not None))
    if stop_at:
        R.check(name + ': stopped at the requested step', seen[-1:] == [stop_at], seen=seen)
        R.check(name + ': the stop file is removed', not os.path.exists('killspectraldns'))
    fn = s.params.solver
    compare(name + ': results', fn + '_w.h5', res, dim)
    compare(name + ': checkpoint', fn + '_c.h5', chk, dim, last or None)
    R.check(name + ': files closed', not c.hdf5file.cfile.f and not c.hdf5file.wfile.f)


def H_solve(s, c):
    import spectralDNS
    spectralDNS.solve(s, c)




def no_output():
    for solver in ('NS', 'Bq2D'):
        R.at(solver + ': a run without a step')
        dim = 2 if solver == 'Bq2D' else 3
        s, c = make(solver, N=np.array([6, 6, 6][:dim]), L=L3(dim), dealias='None', convection='Vortex', dt=0.1, T=0.0)
        H_solve(s, c)
        R.check(solver + ': a run without a step closes its output', True)


def main():
    guarded(R, 'a run without a step', no_output)
    for solver in ('NS', 'NS2D', 'VV', 'MHD', 'Bq2D'):
        for wr, cp, n, stop in ((2, 3, 7, None), (1, 5, 3, None), (100, 2, 3, None), (3, 100, 7, 5), (2, 2, 5, 4)):
            if solver in ('NS2D', 'MHD') and (wr == 1 or cp == 2) and not THOROUGH:
                continue
            guarded(R, '%s results every %d, checkpoints every %d' % (solver, wr, cp), run, solver, wr, cp, n, stop_at=stop)
    for solver in ('KMM', 'KMMr', 'KMMRK3', 'KMM_RB', 'KMMRK3_RB', 'Coupled', 'CoupledRK3'):
        guarded(R, '%s output' % solver, run, solver, 2, 3, 5, 0.001)
        guarded(R, '%s output' % solver, run, solver, 3, 2, 7, 0.001)
        if THOROUGH:
            guarded(R, '%s output, stop' % solver, run, solver, 4, 100, 5, 0.001, 3)


def levels():
    """Several declared levels and slices, and repeated opening."""
    from spectralDNS.h5io import HDF5File
    s, c = make('NS', N=np.array([6, 4, 8]), L=L3(3), dealias='None', convection='Vortex')
    for f in os.listdir('.'):
        if f.endswith('.h5'):
            os.unlink(f)
    from shenfun import Function, Array
    rng = np.random.default_rng(SEED)
    a = [randomize(c, Function(c.VT), c.VT, rng) for _ in range(4)]
    u = Array(c.VT)
    cnt = [0]

    class O(HDF5File):
        def update_components(self, U, **kw):
            cnt[0] += 1
            R.check('levels: refresh gets the context', U is c.U and set(kw) | {'U'} == set(c))
            u[:] = cnt[0]
    h = O('lev', checkpoint={'space': c.VT, 'data': {str(k): {'U': [a[k]]} for k in range(4)}},
          results={'space': c.VT, 'data': {'U': [u]}})
    h.close()
    R.check('levels: closing before any update creates nothing', not os.path.exists('lev_w.h5') and not os.path.exists('lev_c.h5'))
    p = s.params
    p.write_result, p.checkpoint = 3, 4
    res = {}
    for n in range(1, 14):
        p.tstep, p.t = n, 0.25*n
        h.update(p, **c)
        if n % 3 == 0:
            res[n] = {'U%d' % i: np.full((6, 4, 8), n//3) for i in range(3)}
        chk, at = datasets('lev_c.h5')
        R.check('levels: step %d: checkpoint attributes' % n, int(at['tstep']) == n//4*4 and abs(at['t']-0.25*(n//4*4)) < 1e-12, got=repr(at))
        for k in range(4):
            if n % 4 == 0:
                R.check('levels: step %d: level %d' % (n, k), np.array_equal(chk.get('U/3D/%d' % k), np.array(a[k])))
        for k in range(4):
            a[k] *= 0.9
    compare('levels: results', 'lev_w.h5', res, 3)
    R.check('levels: fields are refreshed only for output', cnt[0] == 4, got=cnt[0])
    h.open()
    h.close()
    R.check('levels: closed', not h.cfile.f and not h.wfile.f)
    h.close()


def one_process(tmp):
    """The stop file is in the folder of one process only."""
    from mpi4py import MPI
    from spectralDNS.h5io import HDF5File
    comm = MPI.COMM_WORLD
    s, c = make('NS', N=np.array([8, 6, 10]), L=L3(3), dealias='None', convection='Vortex')
    d = os.path.join(tmp, str(comm.Get_rank()))
    os.makedirs(d, exist_ok=True)
    os.chdir(d)
    for n, (mine, want) in enumerate((((), False), ((0,), True), ((0, 1), True), ((), False))):
        comm.Barrier()
        if comm.Get_rank() in mine:
            open('killspectraldns', 'w').close()
        comm.Barrier()
        got = HDF5File.check_if_kill()
        R.check('stop file in the folders of processes %s: seen by all' % (mine,), bool(got) == want, got=repr(got))
        if comm.Get_rank() == 0:
            R.check('stop file in the folders of processes %s: removed' % (mine,), not os.path.exists('killspectraldns'))
        if os.path.exists('killspectraldns'):
            os.unlink('killspectraldns')


if int(os.environ.get('OMPI_COMM_WORLD_SIZE', '1')) > 1:
    guarded(R, 'stop file', one_process, os.environ['VC_SHARED'])
else:
    main()
    guarded(R, 'levels', levels)
    import channel
    os.environ['VC_SHARED'] = os.path.join(os.getcwd(), 'mpi')
    channel.on_processes(R, os.path.abspath(__file__))
R.done()
