"""The time loop: the loop body as a contract on an arbitrary iteration, and the end-time invariant of the periodic solvers."""
from .common import *
from vc.sym import compare, choose, PathEnd, Unsupported

META = dict(
    functions=['spectralDNS.solve', 'spectralDNS.solvers.NS.end_of_tstep (as bound in NS, VV, MHD, NS2D, Bq2D)', 'spectralDNS.solvers.spectralinit.end_of_tstep',
               'spectralDNS.config.Params (attribute access)'],
    trusted=TRUSTED_ENGINE + ['the integrator returns the state, a positive proposed step and a taken step that is positive and at most the given one '
                              '(C07: equal to it for the fixed-step methods; C08: the accepted one for the adaptive method)'],
    assumptions=['update, output, timer and final callbacks are arbitrary functions that do not change the time, the step counter or the end time',
                 'no step ends exactly 1e-12 past the end time (the boundary of the two tolerances)',
                 'termination is not claimed: a run that ends after at least one step ends at the end time'],
    bounded='real solve() with recording stand-ins and with the real periodic solvers for many step sizes and end times')
EPS = '1/1000000000000'


def rat(x):
    from fractions import Fraction
    return Poly.of(Fraction(x))


def prove(V):
    for integ in ('fixed', 'adaptive'):
        for solver in ('NS', 'VV', 'MHD', 'NS2D', 'Bq2D'):
            for first in (True, False):
                V.case('%s, %s step, %s iteration' % (solver, integ, 'first' if first else 'later'), lambda: loop(V, solver, integ, first, True))
    for first in (True, False):
        for integ in ('fixed', 'adaptive'):
            V.case('any solver, %s step, %s iteration' % (integ, 'first' if first else 'later'), lambda: loop(V, 'NS', integ, first, False))
    V.case('default end of step', lambda: default(V))


def default(V):
    S = periodic(V, 'NS', mask=False)
    m = S.L.load('spectralDNS.solvers.spectralinit')
    p = S.params
    for n in ('t', 'T'):
        p[n] = poly.atom(n, n)
    p.tstep = 3
    before = dict(p)
    r = m.end_of_tstep(S.c)
    V.true('the default does not stop the loop', not r)
    V.true('the default changes no parameter', same_dict(before, dict(p)))


def same_dict(a, b, but=()):
    if set(a) != set(b):
        return False
    for k in a:
        if k in but:
            continue
        x, y = a[k], b[k]
        if x is y:
            continue
        if isinstance(x, Poly) or isinstance(y, Poly):
            try:
                if Poly.of(x).same(Poly.of(y)):
                    continue
            except TypeError:
                pass
            return False
        try:
            if not bool(_np.all(x == y)):
                return False
        except Exception:
            return False
    return True


class Loop:
    """Invariant of the time loop.  The state of the loop lives in the parameters (time, step counter, step size)."""

    def __init__(self):
        self.head = None
        self.after = None

    def init(self, loc):
        pass

    def havoc(self, loc, names):
        self.head()
        return {}

    def preserved(self, loc):
        self.after()


def loop(V, solver, integ, first, periodic_end):
    spec = Loop()
    S = periodic(V, solver, mask=False, loops={('spectralDNS', 'solve'): spec})
    s, c, p = S.s, S.c, S.params
    eps = rat(EPS)
    T = poly.atom('T', 'T')
    dt_in = poly.atom('dt_in', 'dt_in', positive=True)
    t0 = poly.atom('t0', 't0')
    n0 = poly.atom('n0', 'n0', kind='int', info=('ge1',))
    p.T, p.dt, p.t, p.tstep = T, dt_in, t0, n0
    p.make_profile = choose(2, 'profile')
    p.verbose = False
    t, n, dt = (t0, n0, dt_in) if first else (poly.atom('t', 't'), poly.atom('n', 'n', kind='int', info=('ge1',)),
                                              poly.atom('dt', 'dt', positive=True))
    took, nxt = dt, None
    log = []
    seen = {}
    state = object()

    def head():
        V.eq('the loop starts at the configured time', Poly.of(p.t), t0)
        V.eq('the loop starts at the configured step', Poly.of(p.tstep), n0)
        V.eq('the first step has the configured size', Poly.of(p.dt), dt_in)
        V.true('nothing runs before the first step', not log)
        p.t, p.tstep, p.dt = t, n, dt
        seen['params'] = dict(p)
        if not first:
            if periodic_end:
                # end-time invariant
                assume(compare('<=', t, T + eps))
                assume(compare('<=', t + dt, T + eps))
                assume(compare('>=', abs(t - T), eps))
    spec.head = head

    def integrate():
        nonlocal took, nxt
        log.append('integrate')
        V.true('a step is taken only if it does not pass the end', compare('<=', Poly.of(p.t) + Poly.of(p.dt), T + eps))
        V.eq('the step starts at the current time', Poly.of(p.t), t)
        V.eq('the step size is the current one', Poly.of(p.dt), dt)
        V.eq('the step counter is the current one', Poly.of(p.tstep), n)
        if integ == 'adaptive':
            took = poly.atom('took', 'took', positive=True)
            assume(compare('<=', took, dt))
            nxt = poly.atom('next', 'next', positive=True)
        else:
            took = nxt = Poly.of(p.dt)
        return state, nxt, took

    def arrived(who):
        V.eq('%s: time has grown by the step taken' % who, Poly.of(p.t), t + took)
        V.eq('%s: the step counter has grown by one' % who, Poly.of(p.tstep), n + 1)
        V.eq('%s: the end time is unchanged' % who, Poly.of(p.T), T)

    class Timer:
        def __init__(self, *a, **k):
            seen['timers'] = seen.get('timers', 0) + 1

        def __call__(self, *a, **k):
            log.append('timer')
            arrived('timer')

        def final(self, *a, **k):
            log.append('final')

    class Profiler:
        def getstats(self):
            return [1] if choose(2, 'profiled before') else []

        def enable(self, *a, **k):
            seen['enabled'] = True

        def disable(self):
            pass

    class Out:
        def update(self, params, /, **kw):
            log.append('output')
            V.true('output: gets the parameters', params is p)
            V.true('output: gets the whole context', all(k in kw and kw[k] is v for k, v in c.items()))
            arrived('output')

        def close(self):
            log.append('close')

    def update(context):
        log.append('update')
        V.true('update: gets the context', context is c)
        arrived('update')

    def final(context):
        log.append('callback')
        V.true('final callback: gets the context', context is c)
        V.eq('final callback: the configured step size is back', Poly.of(p.dt), dt_in)

    def getint(rhs, u, sol, context):
        V.true('the integrator advances the primary variable', u is c.u)
        V.true('the integrator uses the right-hand side array', rhs is c.dU)
        V.true('the integrator belongs to this solver and context', sol is s and context is c)
        seen['integrators'] = seen.get('integrators', 0) + 1
        return integrate
    conv = object()

    def getconv(name):
        V.true('the convection is the configured one', name == p.convection)
        return conv
    real_end = s.end_of_tstep

    def end(context):
        log.append('end')
        V.true('end of step: gets the context', context is c)
        arrived('end of step')
        assume(compare('!=', Poly.of(p.t), T + eps))
        if not periodic_end:
            if choose(2, 'the solver asks for the end'):
                return True
            if choose(2, 'the solver changes the step'):
                p.dt = poly.atom('dt_mod', 'dt_mod', positive=True)
            return False
        return real_end(context)
    s.Timer, s.profiler, s.update, s.regression_test, s.getintegrator, s.getConvection, s.end_of_tstep = Timer, Profiler(), update, final, getint, getconv, end
    s.create_profile = lambda prof: {}
    c.hdf5file = Out()
    STEP = ['integrate', 'update', 'output', 'timer', 'end']

    def after():
        V.true('one iteration: one step, then update, output and timer once each, in this order', log == STEP)
        V.true('one iteration: only time, step counter and step size change', same_dict(seen['params'], dict(p), ('t', 'tstep', 'dt')))
        if periodic_end:
            V.true('end-time invariant: the end is not passed', compare('<=', Poly.of(p.t), T + eps))
            V.true('end-time invariant: the next step fits', compare('<=', Poly.of(p.t) + Poly.of(p.dt), T + eps))
            V.true('end-time invariant: the next step is positive', compare('>', Poly.of(p.dt), 0))
            V.true('end-time invariant: the end is not reached yet', compare('>=', abs(Poly.of(p.t) - T), eps))
            V.true('the next step is not longer than the proposed one', compare('<=', Poly.of(p.dt), Poly.of(nxt) + eps))
            if compare('<', Poly.of(p.t) + Poly.of(nxt), T - eps):
                V.eq('a proposed step that ends before the end time is taken as it is', Poly.of(p.dt), Poly.of(nxt))
        elif 'dt_mod' not in str(p.dt):
            V.eq('the proposed step is used next', Poly.of(p.dt), nxt)
    spec.after = after
    frame = c.copy() if hasattr(c, 'copy') else dict(c)
    S.sd.solve(s, c)
    V.true('the convection function is installed', s.conv is conv)
    V.true('one integrator and one timer per run', seen.get('integrators') == 1 and seen.get('timers') == 1)
    body = log[:5] if log[:1] == ['integrate'] else []
    V.true('a stopped run: one step, then update, output and timer once each, in this order', body in ([], STEP))
    V.true('after the loop: timing, final callback, output closed, once each', log[len(body):] == ['final', 'callback', 'close'])
    V.eq('the configured step size is restored', Poly.of(p.dt), dt_in)
    V.true('the context keeps its entries', set(frame) <= set(c) and all(c[k] is v for k, v in dict(frame).items()))
    if periodic_end:
        if body or not first:
            V.true('the run ends at the end time', compare('<', abs(Poly.of(p.t) - T), eps))
        else:
            V.true('a run without a step could not take one', compare('>', t + dt, T + eps))
    elif not body:
        V.true('the loop ends only when the next step does not fit', compare('>', t + dt, T + eps))
