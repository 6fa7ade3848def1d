"""The adaptive Runge-Kutta driver: loop invariant and acceptance contract."""
from fractions import Fraction
import numpy as _np
from .integ import *
from vc.sym import Unsupported, compare, PathEnd

META = dict(
    functions=['spectralDNS.maths.integrators.adaptiveRK', 'spectralDNS.maths.integrators.getintegrator'],
    trusted=TRUSTED_FFT[2:3] + TRUSTED_ENGINE + ['the sum over the grid is an uninterpreted linear functional; pow, sqrt, max, min, abs by their order axioms'],
    assumptions=['the error estimate and the error scale are nonzero', 'one process (the reduction of the norm is the identity)',
                 'when a step starts with a previous right-hand side, that one belongs to the current state (established by the previous step)',
                 'termination of the retry loop is not claimed'],
    bounded='real adaptive integrator on non-linear right-hand sides with accepted and rejected steps against a direct implementation')
MOD = 'spectralDNS.maths.integrators'


def prove(V):
    V.case('coefficients', lambda: tableau(V))
    for solver, modes in (('NS', ('in place', 'new array')), ('NS2D', ('in place',)), ('MHD', ('in place',))):
        for mode in modes:
            for first in (True, False):
                for later in (False, True):
                    offs = range(8) if solver == 'NS2D' or (V.tier == 'thorough' and solver == 'NS') else (0, 5)
                    for off in offs:
                        V.case('%s, right-hand side %s, %s step of the run, %s, ring position %d'
                               % (solver, mode, 'first' if first else 'later', 'after a rejection' if later else 'first attempt', off),
                               lambda: attempt(V, solver, mode, first, later, off))
    for t0 in (0, 'n0'):
        V.case('two accepted steps in a row, first step %s' % t0, lambda: sequence(V, t0))


def capture(S):
    """The arguments getintegrator passes to the driver."""
    m = S.L.load(MOD)
    real = getattr(m, 'adaptiveRK', None)
    if real is None:
        raise Unsupported('adaptiveRK is gone')
    got = {}
    sig = inspect.signature(real)

    def fake(*a, **k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        got.update(b.arguments)
        return S.u, S.params.dt, S.params.dt
    f = S.s.getintegrator(S.c.dU, S.u, S.s, S.c)
    m.adaptiveRK = fake
    try:
        f()
    finally:
        m.adaptiveRK = real
    for n in ('A', 'b', 'bhat', 'err_order', 'fY_hat', 'offset', 'aTOL', 'rTOL', 'dt', 'tstep', 'u0', 'u0_new', 'adaptive', 'fsal'):
        if n not in got:
            raise Unsupported('adaptiveRK has no argument %s' % n)
    return real, got, f


def fr(x):
    if isinstance(x, Poly):
        return x.const()[0]
    return poly.coef(x)[0]


def tableau(V):
    n0 = poly.atom('n0', 'n0', kind='int', info=('ge1',))
    n1 = poly.atom('n1', 'n1', kind='int', info=('ge1',))
    S = setup(V, 'NS', 'BS5_adaptive', tstep0=n0)
    tol = poly.atom('TOL', 'TOL', positive=True)
    S.params.TOL = tol
    dt = poly.atom('dt', 'dt', positive=True)
    S.params.dt = dt
    real, g, _ = capture(S)
    V.true('adaptive', g['adaptive'] is True or g['adaptive'] == True)
    V.true('order of the embedded method', g['err_order'] == 4)
    V.eq('absolute tolerance', g['aTOL'], tol)
    V.eq('relative tolerance', g['rTOL'], tol)
    V.eq('step size', g['dt'], dt)
    V.eq('first call of a restarted run is its first step', Poly.of(g['tstep']), 0)
    V.same_object('state', g['u0'], S.u)
    A = [[fr(x) for x in r] for r in g['A']]
    b, bh = [fr(x) for x in g['b']], [fr(x) for x in g['bhat']]
    s = len(b)
    V.true('explicit', all(A[i][j] == 0 for i in range(s) for j in range(i, s)))
    c = [sum(r) for r in A]
    one = [Fraction(1)]*s
    mul = lambda *v: [__import__('math').prod(x) for x in zip(*v)]
    ap = lambda v: [sum(A[i][j]*v[j] for j in range(s)) for i in range(s)]
    dot = lambda w, v: sum(x*y for x, y in zip(w, v))
    c2, c3, c4 = mul(c, c), mul(c, c, c), mul(c, c, c, c)
    trees = [(1, one, 1), (2, c, 2), (3, c2, 3), (3, ap(c), 6), (4, c3, 4), (4, mul(c, ap(c)), 8), (4, ap(c2), 12), (4, ap(ap(c)), 24),
             (5, c4, 5), (5, mul(c2, ap(c)), 10), (5, mul(ap(c), ap(c)), 20), (5, mul(c, ap(c2)), 15), (5, mul(c, ap(ap(c))), 30),
             (5, ap(c3), 20), (5, ap(mul(c, ap(c))), 40), (5, ap(ap(c2)), 60), (5, ap(ap(ap(c))), 120)]
    for k, (p, v, d) in enumerate(trees):
        V.eq('order %d condition %d' % (p, k), Poly.of(dot(b, v)), Fraction(1, d))
        if p <= 4:
            V.eq('embedded: order %d condition %d' % (p, k), Poly.of(dot(bh, v)), Fraction(1, d))
    V.true('the embedded method differs (order 5 fails)', any(dot(bh, v) != Fraction(1, d) for p, v, d in trees if p == 5))
    for j in range(s):
        V.eq('last stage is the new state, coefficient %d' % j, Poly.of(A[s-1][j] - b[j]), 0)
    V.true('first same as last is used', g['fsal'] is True or g['fsal'] == True)


class Stop(Exception):
    pass


class Retry:
    """Invariant of the retry loop: the state is the one the step started from, the ring position and the stored
    right-hand side of that state are intact, the step is positive and smaller than at the first attempt, growth is
    forbidden after a rejection."""

    def __init__(self, later):
        self.later = later
        self.on_reject = None
        self.dt = None

    def init(self, loc):
        self.dtl = [n for n, v in loc.items() if isinstance(v, Poly) and v.same(self.dt0)]
        self.facl = [n for n, v in loc.items() if isinstance(v, (int, float)) and not isinstance(v, bool) and v == 2 and n not in ('fac',)
                     and n not in ('err_order',)]

    def havoc(self, loc, names):
        h = {}
        self.dtn = [n for n in self.dtl if n in names]
        self.facn = [n for n in self.facl if n in names]
        if len(self.dtn) != 1 or len(self.facn) != 1:
            raise Unsupported('the retry loop carries other variables than the step and the growth limit')
        for n in names:
            if n in self.dtn:
                h[n] = self.dt
            elif n in self.facn:
                h[n] = 1 if self.later else loc[n]
            elif n in loc and isinstance(loc[n], SArr):
                h[n] = loc[n]
            elif n in loc:
                raise Unsupported('the retry loop carries %s' % n)
        return h

    def preserved(self, loc):
        self.on_reject(loc[self.dtn[0]], loc[self.facn[0]])


def estimate(S, err, u, unew, tol):
    """Contract of the error estimate: scaled 2-norm, largest over the components."""
    n = Poly.of(1)
    for d in S.c.T.shape(True):
        n = n*d
    m = None
    for k in range(u.comps[0]):
        v = []
        for p in range(u.val.shape[-1]):
            sc = tol + opaque('max', abs(u.val[k, p]), abs(unew.val[k, p]))*tol
            a = abs(err.val[k, p]/sc)
            v.append(a*a)
        t = poly.gsum(v, n).sqrt()
        m = t if m is None else opaque('max', m, t)
    return m/n.sqrt()


def attempt(V, solver, mode, first, later, off):
    spec = Retry(later)
    S = setup(V, solver, 'BS5_adaptive', mode=mode, loops={(MOD, 'adaptiveRK'): spec}, tstep0=0)
    tol = poly.atom('TOL', 'TOL', positive=True)
    S.params.TOL = tol
    dt0 = poly.atom('dt0', 'dt0', positive=True)
    S.params.dt = dt0
    real, g, _ = capture(S)
    g['tstep'] = 0 if first else poly.atom('tstep', 'tstep', kind='int', info=('ge1',))
    u = S.u
    x = SArr.named('state', u.grid, u.comps, 'complex128')
    u[...] = x
    for n in ('fY_hat', 'u0_new', 'sc', 'err', 'rhs'):
        if isinstance(g.get(n), SArr):
            arr.garbage(g[n], n)
    off0 = off
    g['offset'][0] = off
    slot = (off-1) % 8
    f0 = None
    if not first:
        f0 = SArr.named('f_old', u.grid, u.comps, 'complex128')
        g['fY_hat'][slot] = f0
    spec.dt0 = dt0
    if later:
        spec.dt = poly.atom('dt', 'dt', positive=True)
        assume(spec.dt < dt0)
    else:
        spec.dt = dt0
    dt = spec.dt
    cb = []

    def callback(context):
        cb.append((context.fu0.copy(), context.get('is_step_rejected_callback', False), context.get('dt_rejected', None)))
    g['additional_callback'] = callback
    S.c.pop('is_step_rejected_callback', None)

    def values():
        f = [c[1] for c in S.rhs.calls]
        if not first:
            f = [f0] + f
        return f

    def state(co, f):
        y = x
        for c, k in zip(co, f):
            if c.t:
                y = y + k*(dt*c)
        return y
    for n in ('A', 'b', 'bhat'):        # the coefficients as exact rationals
        e = _np.empty(g[n].shape, dtype=object)
        for ix in _np.ndindex(e.shape):
            e[ix] = Poly.of(fr(g[n][ix]))
        g[n] = e
    A = [[Poly.of(fr(c)) for c in r] for r in g['A']]
    b, bh = [Poly.of(fr(c)) for c in g['b']], [Poly.of(fr(c)) for c in g['bhat']]

    def common():
        f = values()
        V.true('number of evaluations', len(f) == 8)
        if len(f) != 8:
            raise PathEnd('wrong number of stages')
        for i, c in enumerate(S.rhs.calls):
            V.eq('stage %d evaluated at the stage state' % (i + (not first)), c[0], state(A[i + (not first)][:i + (not first)], f))
            V.true('stage %d gets the solver and the context' % (i + (not first)), c[2] and c[3])
        V.true('the callback is called after the first stage', len(cb) >= 1)
        if cb:
            V.eq('the callback sees the right-hand side of the old state', cb[0][0], f[0])
        new = state(b, f)
        err = state(b, f) - state(bh, f)
        return f, new, estimate(S, err, x, new, tol)

    def factor(est):
        return opaque('min', Poly.of(1 if later else 2), opaque('max', rat('1/100'), rat('4/5')*(1/est)**Poly.of(Fraction(1, 5))))

    def rejected(ndt, nfac):
        f, new, est = common()
        V.true('rejected only above tolerance', compare('>', est, 1))
        V.eq('rejection: the state is the one the step started from', u, x)
        V.eq('rejection: new step', ndt, dt*factor(est))
        V.true('rejection: strictly smaller step', compare('<', Poly.of(ndt), dt))
        V.true('rejection: positive step', compare('>', Poly.of(ndt), 0))
        V.true('rejection: no growth afterwards', nfac == 1)
        if first:           # all stages are evaluated again, at whatever ring position
            pos = g['offset'][0]
            V.true('rejection: a ring position', isinstance(pos, int))
        else:
            V.true('rejection: ring position restored', g['offset'][0] % 8 == off0)
        if not first:
            V.eq('rejection: the stored right-hand side is that of the state', g['fY_hat'][slot], f[0])
        V.true('rejection: the callback is told', len(cb) == 2 and cb[1][1] is True)
        if len(cb) == 2:
            V.eq('rejection: the callback is told the rejected step', Poly.of(cb[1][2]), dt)
    spec.on_reject = rejected
    r = real(**g)
    f, new, est = common()
    V.true('accepted only within tolerance', compare('<=', est, 1))
    V.same_object('the state is advanced in place', r[0], u)
    V.eq('new state is the fifth-order update', u, new)
    V.eq('taken step', r[2], dt)
    V.eq('proposed step', r[1], dt*factor(est))
    V.true('one callback', len(cb) == 1)
    V.eq('ring: the next step finds the right-hand side of the new state', g['fY_hat'][(g['offset'][0]-1) % 8], f[7])
    V.eq('... which was evaluated there', S.rhs.calls[-1][0], new)


def sequence(V, t0):
    n0 = 0 if t0 == 0 else poly.atom('n0', 'n0', kind='int', info=('ge1',))
    spec = Retry(False)
    S = setup(V, 'NS2D', 'BS5_adaptive', loops={(MOD, 'adaptiveRK'): spec}, tstep0=n0)
    S.params.TOL = poly.atom('TOL', 'TOL', positive=True)
    u = S.u
    u[...] = SArr.named('state', u.grid, u.comps, 'complex128')
    S.s.additional_callback = lambda context: None

    def stop(*a):
        raise PathEnd('rejection is the subject of other cases')
    spec.on_reject = stop
    step = S.s.getintegrator(S.c.dU, u, S.s, S.c)
    last = None
    A = [[rat(c) for c in r] for r in BS5_A]
    for k in range(2):
        dt = poly.atom('dt%d' % k, 'dt%d' % k, positive=True)
        spec.dt0 = spec.dt = dt
        S.params.dt = dt
        S.params.tstep = n0 + k
        x = u.copy()
        S.rhs.calls.clear()
        S.rhs.name = 'f%d_' % k
        r = step()
        f = ([last] if last is not None else []) + [c[1] for c in S.rhs.calls]
        V.true('step %d: evaluations' % k, len(f) == 8)
        if len(f) != 8:
            return
        y = x
        for c, g in zip(A[7], f):
            if c.t:
                y = y + g*(dt*c)
        V.eq('step %d: new state' % k, u, y)
        V.eq('step %d: taken step' % k, r[2], dt)
        last = f[7]
