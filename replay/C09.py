"""The real time loop with recording stand-ins."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from periodic import *
import types

R = H.Report('C09')
H.enter_scratch(); H.use()


class Rec:
    def __init__(self, s, p):
        self.log, self.s, self.p = [], s, p
        self.snap = []


def drive(R, name, s, c, steps, real_end=None, stop=None, profile=False, integ=None, periodic=True):
    """Run solve with the given proposals; returns the log of (event, t, tstep, dt)."""
    p = s.params
    log = []
    rec = lambda e: log.append((e, float(p.t), int(p.tstep), float(p.dt)))
    it = iter(steps)
    took_log = []
    calls = []

    def integrate():
        calls.append((float(p.t), float(p.dt), int(p.tstep)))
        d = float(p.dt)
        prop, frac = next(it)
        rec('integrate')
        took = d*frac
        took_log.append((took, d if prop is None else prop))
        return c.u, d if prop is None else prop, took

    class Timer:
        def __init__(self, *a, **k):
            pass

        def __call__(self):
            rec('timer')

        def final(self, *a, **k):
            rec('final')

    class Out:
        def update(self, params, /, **kw):
            rec('output')
            R.check(name + ': output gets parameters and context', params is p and all(kw.get(k, None) is v for k, v in c.items()))

        def close(self):
            rec('close')
    s.Timer = Timer
    s.update = lambda context: (rec('update'), R.check(name + ': update gets the context', context is c))[0]
    s.regression_test = lambda context: rec('callback')
    s.getintegrator = lambda *a: integrate
    c.hdf5file = Out()
    end = real_end if real_end is not None else s.end_of_tstep
    cnt = [0]

    def e(context):
        rec('end')
        cnt[0] += 1
        if stop is not None:
            return cnt[0] >= stop
        return end(context)
    s.end_of_tstep = e
    p.make_profile = profile
    t0, n0, dt0, T = float(p.t), int(p.tstep), float(p.dt), float(p.T)
    over = False
    try:
        H_solve(s, c)
    except StopIteration:
        over = True
    n = len(took_log)
    want, t = [], t0
    for k, (took, prop) in enumerate(took_log):
        want.append('integrate')
        want += ['update', 'output', 'timer', 'end']
    tail = [] if over else ['final', 'callback', 'close']
    if over:
        want += []
        R.check(name + ': the run ends', False, steps=n)
        return
    R.check(name + ': order of events', [x[0] for x in log] == want + tail, got=[x[0] for x in log][:12])
    for k, (took, prop) in enumerate(took_log):
        ev = log[5*k:5*k+5]
        R.check(name + ': step %d never passes the end' % k, calls[k][0] + calls[k][1] <= T + 1e-11, got=calls[k])
        if k and periodic:
            want_dt = took_log[k-1][1]
            left = T - calls[k][0]
            R.check(name + ': step %d has the proposed size, or what is left' % k, abs(calls[k][1] - min(want_dt, left)) < 2e-12, got=calls[k], want=min(want_dt, left))
        t += took
        R.check(name + ': state seen after step %d' % k, all(abs(x[1]-t) < 1e-11 and x[2] == n0+k+1 for x in ev[1:]), got=ev, want=(t, n0+k+1))
    R.check(name + ': configured step restored', abs(float(p.dt)-dt0) < 1e-15 and all(abs(x[3]-dt0) < 1e-15 for x in log if x[0] == 'callback'), got=float(p.dt))
    return n


def one(R, solver, t0, n0, T, dt, steps, stop=None, periodic_end=True, profile=False):
    dim = 2 if solver.endswith('2D') else 3
    s, c = make(solver, N=[6]*dim, L=[2*np.pi]*dim, convection=forms(solver)[0])
    p = s.params
    name = '%s t0=%g T=%g dt=%g%s' % (solver, t0, T, dt, '' if stop is None else ' stopped after %d' % stop)
    global H_solve
    import importlib
    H_solve = importlib.import_module('spectralDNS').solve
    p.t, p.tstep, p.T, p.dt = t0, n0, T, dt
    end = None
    if not periodic_end:
        end = lambda context: False
    n = drive(R, name, s, c, steps, real_end=end, stop=stop, profile=profile, periodic=periodic_end)
    if n is None:
        return
    if stop is not None and n == stop:
        return
    if periodic_end:
        if t0 + dt <= T + 1e-13:
            R.check(name + ': ends at the end time', abs(float(p.t) - T) < 1e-11, got=float(p.t))
        elif t0 + dt > T + 1e-11:
            R.check(name + ': takes no step', n == 0, got=n)
    else:
        R.check(name + ': stops when the next step does not fit', float(p.t) <= T + 1e-11, got=float(p.t))
        m = int(np.floor((T-t0)/dt + 1e-9))
        R.check(name + ': number of steps', n == max(m, 0), got=n, want=m)


rng = np.random.default_rng(SEED)
fixed = lambda n=400: [(None, 1.0)]*n
for solver in ('NS', 'VV', 'MHD', 'NS2D', 'Bq2D'):
    for t0, n0, T, dt in ((0., 0, .1, .01), (0., 0, .1, .03), (.25, 7, 1., .2), (0., 0, .05, .05), (0., 0, .05, .08), (1., 3, 1.5, .37)):
        guarded(R, solver, one, R, solver, t0, n0, T, dt, fixed())
    for k in range(6 if not THOROUGH else 30):
        st = [(float(rng.uniform(.005, .2)), float(rng.uniform(.2, 1.))) for _ in range(400)]
        guarded(R, solver, one, R, solver, 0., 0, 1., .05, st)
        st = [(float(rng.uniform(.005, .6)), 1.) for _ in range(400)]
        guarded(R, solver, one, R, solver, .5, 4, 1.25, .1, st, profile=bool(k % 2))
    guarded(R, solver, one, R, solver, 0., 0, 1., .1, fixed(), stop=3)
for t0, n0, T, dt in ((0., 0, .1, .01), (0., 0, .1, .03), (2., 9, 2.5, .2), (0., 0, .05, .08)):
    guarded(R, 'generic', one, R, 'NS', t0, n0, T, dt, fixed(), periodic_end=False)


class Endless(Exception):
    pass


def whole(R, solver, integrator, T, dt):
    """The unmodified loop and integrators on a real solver."""
    dim = 2 if solver.endswith('2D') else 3
    s, c = make(solver, N=[6, 8, 6][:dim], L=[2*np.pi]*dim, integrator=integrator, convection={'MHD': 'Divergence'}.get(solver, 'Vortex'))
    p = s.params
    p.t, p.tstep, p.T, p.dt = 0., 0, T, dt
    randomize(c, c.u, c.u.function_space(), np.random.default_rng(SEED))
    c.u *= 0.1
    seen = []

    def update(context):
        seen.append((float(p.t), int(p.tstep)))
        if len(seen) > 2000:
            raise Endless('%s %s T=%g dt=%g: no end after 2000 steps, t = %r' % (solver, integrator, T, dt, seen[-1][0]))
    s.update = update
    done = []
    s.regression_test = lambda context: done.append((float(p.t), float(p.dt)))
    import importlib
    H.quiet
    importlib.import_module('spectralDNS').solve(s, c)
    name = 'unmodified %s %s T=%g dt=%g' % (solver, integrator, T, dt)
    R.check(name + ': ends at the end time', len(done) == 1 and abs(done[0][0]-T) < 1e-11, got=done)
    R.check(name + ': step restored', len(done) == 1 and done[0][1] == dt, got=done)
    R.check(name + ': every step reported', [x[1] for x in seen] == list(range(1, len(seen)+1)) and all(b[0] > a[0] for a, b in zip(seen, seen[1:])), got=seen[:5])


for solver in ('NS', 'VV', 'MHD', 'NS2D', 'Bq2D'):
    for integrator in ('RK4', 'AB2', 'BS5_adaptive') if solver in ('NS', 'NS2D') else ('RK4', 'BS5_adaptive'):
        guarded(R, 'unmodified ' + solver, whole, R, solver, integrator, .1, .03)
R.done()
