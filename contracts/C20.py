"""Selection by name: the solver, convection form, integrator and hooks that a selection yields, for every name, subset of hooks and order."""
from .C14 import *
from .C14 import World as _World
from . import integ
from vc import chan
from vc.sym import ContractFailure, Unsupported, PathEnd

META = dict(
    functions=['spectralDNS.get_solver', 'spectralDNS.solve (hooks, convection, integrator)', 'the argument parsers of spectralDNS.config',
               'getConvection of the ten solver modules that define one', 'module bodies (star imports) of the twelve solver modules and spectralinit',
               'spectralDNS.maths.integrators.getintegrator'],
    trusted=['the VC generator vc/', 'z3', 'argparse and importlib: executed, not modelled',
             'shenfun, mpi4py-fft, h5py, LUsolve: not called when a module is imported (an import that calls them is Unsupported)'],
    assumptions=['the implementation of a convection form is identified by its `convection` attribute here; what each form computes is C03, C04, C05, C12',
                 'the adaptive integrator: by name here, its step is C08; the other explicit schemes are identified by their growth polynomial on du/dt = lambda u',
                 'which names a problem type accepts is the table NAMES/FORMS/INTEGRATORS of contracts/C20.py'],
    bounded='real get_solver and solve for every solver, accepted form and integrator, random hook subsets and selection orders')

FORMS = {'triplyperiodic': ('Standard', 'Divergence', 'Skewed', 'Vortex'), 'doublyperiodic': ('Vortex',),
         'channel': ('Standard', 'Divergence', 'Skew', 'Vortex')}
ONLY = {'VV': ('Vortex',), 'NS2D': ('Vortex',), 'Bq2D': ('Vortex',), 'MHD': ('Divergence',)}
EXPLICIT = ('RK4', 'ForwardEuler', 'AB2', 'BS5_adaptive', 'BS5_fixed')
HOOKS = ('update', 'regression_test', 'additional_callback')
ALL = [(m, s) for m in SOLVERS for s in SOLVERS[m]]
OWN = ('get_context', 'getConvection', 'ComputeRHS', 'getintegrator', 'end_of_tstep')


def world(V):
    U = chan.ChanU(0, ('z', 'g'), 'GC')
    F = chan.fakes_channel(U, 0)
    F['mpi4py_fft'] = Fake('mpi4py_fft')
    F['mpi4py_fft.fftw'] = Fake('mpi4py_fft.fftw')
    return _World(V, F)


def refused(f):
    """The call does not return a solver."""
    import contextlib, io
    try:
        with contextlib.redirect_stderr(io.StringIO()):
            f()
    except (PathEnd, Unsupported, ContractFailure):
        raise
    except (Exception, SystemExit):
        return True
    return False


def prove(V):
    for m, s in ALL:
        V.case('%s %s: the module, its parameters and every subset of hooks' % (m, s), lambda: one(V, m, s))
        V.case('%s %s: convection forms' % (m, s), lambda: forms(V, m, s))
        V.case('%s %s: after any other selection' % (m, s), lambda: after(V, m, s))
        V.case('%s %s: the time loop uses what was selected' % (m, s), lambda: loop(V, m, s))
    for m in SOLVERS:
        V.case('%s: names that are not accepted' % m, lambda: unknown(V, m))
    for m, s in (('triplyperiodic', 'NS'), ('triplyperiodic', 'VV'), ('triplyperiodic', 'MHD'), ('doublyperiodic', 'NS2D'), ('doublyperiodic', 'Bq2D')):
        for i in EXPLICIT:
            V.case('%s: integrator %s' % (s, i), lambda: scheme(V, m, s, i))


def is_default(V, w, sol, given, who):
    for h in HOOKS:
        f = getattr(sol, h)
        if given.get(h) is not None:
            V.true('%s: %s is the one given' % (who, h), f is given[h])
        else:
            box = [object()]
            V.true('%s: %s is the default, which does nothing' % (who, h),
                   callable(f) and not any(f is x for x in w.all_hooks) and f(Nothing()) is None)


class Nothing:
    """A context no one may look at."""

    def __getattr__(self, n):
        raise ContractFailure('the default hook uses the context')
    __getitem__ = __getattr__


def hook(w, name):
    def f(context):
        raise ContractFailure('a hook is called during selection')
    f.__name__ = name
    w.all_hooks.append(f)
    return f


def pick(w, m, s, hooks=None, args=(), sub=()):
    return w.sd.get_solver(mesh=m, parse_args=list(args) + [s] + list(sub), **(hooks or {}))


def one(V, m, s):
    w = world(V)
    w.all_hooks = []
    for k in range(8):
        hooks = {h: hook(w, h+str(k)) for i, h in enumerate(HOOKS) if k >> i & 1}
        sol = pick(w, m, s, hooks)
        who = 'hooks ' + ('+'.join(hooks) or 'none')
        V.true(who + ': the module of that name', sol is w.L.mods['spectralDNS.solvers.' + s] and sol.__name__ == 'spectralDNS.solvers.' + s)
        V.true(who + ': the configuration links to it', w.cfg.solver is sol and sol.params is w.cfg.params)
        is_default(V, w, sol, hooks, who)
        expect(V, w, m, s, {}, who)
        V.true(who + ': mesh size', same(w.cfg.params.N, [64]*len(DEFAULTS[m]['M'])))
    for h in HOOKS:
        sol = pick(w, m, s, {h: None})
        is_default(V, w, sol, {}, 'no ' + h)


def forms(V, m, s):
    w = world(V)
    w.all_hooks = []
    sol = pick(w, m, s)
    for f in FORMS[m]:
        sol = pick(w, m, s, args=['--convection', f])
        V.true('%s on the command line' % f, w.cfg.params.convection == f)
        form(V, sol, s, f)
    for f in ('vortex', 'Unknown', '', None):
        V.true('%r is refused' % f, refused(lambda: sol.getConvection(f)))
    for f in ('Unknown', 'vortex'):
        V.true('%r is refused on the command line' % f, refused(lambda: pick(w, m, s, args=['--convection', f])))
    # a form obtained earlier keeps its name
    ok = ONLY.get(s, FORMS[m])
    got = [sol.getConvection(f) for f in ok]
    V.true('forms obtained one after the other stay apart', all(g.convection == f for g, f in zip(got, ok)) and len(set(map(id, got))) == len(got))


def form(V, sol, s, f):
    try:
        g = sol.getConvection(f)
    except (PathEnd, Unsupported, ContractFailure):
        raise
    except Exception as e:
        V.true('%s is refused only where the solver has no such form' % f, s in ONLY and f not in ONLY[s])
        return
    V.true('%s is offered where the solver has it' % f, f in ONLY.get(s, (f,)))
    V.true('%s is that form' % f, callable(g) and g.convection == f)


def after(V, m, s):
    """Selecting s after any other selection that changed everything it could."""
    w = world(V)
    w.all_hooks = []
    own = {}
    for om, o in ALL:
        # the first selection: hooks, command line, sizes given directly, parameters and module attributes set by its user
        hooks = {h: hook(w, o+h) for h in HOOKS}
        n = len(DEFAULTS[om]['M'])
        args = ['--dt', '0.5', '--nu', '0.25', '--t', '3', '--tstep', '4', '--M'] + ['3']*n + ['--L'] + ['1']*n
        args += ['--convection', 'Vortex', '--dealias', 'None', '--filemode', 'r', '--h5filename', 'x', '--no-verbose', '--no-mask_nyquist']
        sub = {'MHD': ['--eta', '0.5'], 'Bq2D': ['--Ri', '0.5', '--Pr', '0.5']}.get(o, [])
        a = pick(w, om, o, hooks, args, sub)
        p = w.cfg.params
        p.N = [5]*n
        p.dt = 0.125
        p.kappa = 0.5
        a.conv = 'the form of %s' % o
        b = pick(w, m, s)
        who = 'after %s' % o
        V.true(who + ': the module of that name', b.__name__ == 'spectralDNS.solvers.' + s and w.cfg.solver is b)
        expect(V, w, m, s, {}, who)
        V.true(who + ': the mesh size is the one of this selection', same(p.N, [64]*len(DEFAULTS[m]['M'])))
        V.true(who + ': the mesh spacing has its dimension', len(p.dx) == len(DEFAULTS[m]['M']))
        is_default(V, w, b, {}, who)
        for h in OWN:
            if h not in own:
                own[h] = getattr(b, h)
            V.true('%s: %s is its own' % (who, h), getattr(b, h) is own[h])
        if a is not b:
            V.true(who + ': the other solver keeps its hooks', all(getattr(a, h) is hooks[h] for h in HOOKS) and a.conv == 'the form of %s' % o)
        # sizes given through an update of the other problem type
        if om != m:
            w.cfg.update({'N': [7]*n, 'nu': 0.75}, om)
            pick(w, om, o)
            pick(w, m, s)
            expect(V, w, m, s, {}, who + ' with a size set through update')
            V.true(who + ': the mesh size is the one of this problem type', same(p.N, [64]*len(DEFAULTS[m]['M'])))


def unknown(V, m):
    w = world(V)
    w.all_hooks = []
    names = {s for x in SOLVERS.values() for s in x} | {'Unknown', 'ns', 'spectralinit', 'IPCS', '__init__', ''}
    for s in sorted(names - set(SOLVERS[m])):
        V.true('solver %r is refused' % s, refused(lambda: pick(w, m, s)))
    V.true('no solver name is refused', refused(lambda: w.sd.get_solver(mesh=m, parse_args=[])))
    for s in SOLVERS[m]:
        for i in ('Unknown', 'rk4', 'RK3'):
            where = {'args': ['--integrator', i]} if m != 'channel' else {'sub': ['--integrator', i]}
            V.true('%s: integrator %r is refused' % (s, i), refused(lambda: pick(w, m, s, **where)))
    V.true('an unknown problem type is refused', refused(lambda: w.sd.get_solver(mesh='Unknown', parse_args=['NS'])))
    # every name the parser accepts has a module
    for s in accepted(w, m):
        if s in SOLVERS[m]:
            continue
        V.true('%s: the accepted name %s resolves to a solver' % (m, s), not refused(lambda: pick(w, m, s)))


def accepted(w, m):
    """The solver names the real parser accepts."""
    p = getattr(w.cfg, m)
    out = []
    for a in p._subparsers._group_actions:
        out += list(a.choices)
    return out


class Ctx(dict):
    def __getattr__(self, n):
        try:
            return self[n]
        except KeyError:
            raise AttributeError(n)


def loop(V, m, s):
    """One step of solve(): the selected form, integrator and hooks are the ones used, each once, with the context."""
    for f in ONLY.get(s, FORMS[m]):
        w = world(V)
        # what an earlier run may have left behind in the module: nothing, another form of this solver, the form of that name of another solver
        left = [None]
        for s2 in ALL:
            if s2[1] != s and f in ONLY.get(s2[1], FORMS[s2[0]]):
                left.append(s2)
        left += [(m, s, f2) for f2 in ONLY.get(s, FORMS[m]) if f2 != f]
        for old in left:
            once(V, w, m, s, f, old)


def once(V, w, m, s, f, old):
        who = f if old is None else '%s after a run of %s' % (f, ' '.join(old[1:]))
        w.all_hooks = []
        log = []

        class H5:
            def update(self, params, **c):
                log.append('file')

            def close(self):
                log.append('close')
        ctx = Ctx(hdf5file=H5(), dU='the right-hand side', u='the solution', g=object())
        hooks = {h: (lambda c, h=h: log.append((h, c is ctx))) for h in HOOKS}
        stale = None
        if old is not None:
            f2 = old[2] if len(old) == 3 else f
            stale = pick(w, old[0], old[1], None, ['--convection', f2]).getConvection(f2)
        sol = pick(w, m, s, hooks, ['--convection', f, '--dt', '0.1', '--T', '0.1'])
        if stale is not None:
            sol.conv = stale
        asked = []

        def step():
            return ctx.u, w.cfg.params.dt, w.cfg.params.dt

        def getintegrator(rhs, u, solver, context):
            asked.append((rhs is ctx.dU, u is ctx.u, solver is sol, context is ctx, same_form(sol, f)))
            return step
        sol.getintegrator = getintegrator

        class T:
            def __call__(self):
                pass

            def final(self, *a):
                pass
        sol.Timer = T

        class P:
            def getstats(self):
                return True

            def enable(self):
                pass
        sol.profiler = P()
        sol.end_of_tstep = lambda c: False
        w.sd.solve(sol, ctx)
        V.true('%s: the selected form is used' % who, same_form(sol, f))
        V.true('%s: the integrator is asked for once, for this solver and context, with the form in place' % who, asked == [(True,)*5])
        V.true('%s: the hooks given are called with the context, at their places' % who,
               log == [('update', True), 'file', ('regression_test', True), 'close'])


def same_form(sol, f):
    """The form in place is this solver's form of that name."""
    g = sol.getConvection(f)
    a, b = getattr(sol.conv, '__code__', None), getattr(g, '__code__', None)
    return sol.conv.convection == f and (a is b or a is None or b is None)


def scheme(V, m, s, i):
    from vc.sym import assume
    S = periodic(V, s, fakes={'numpy': integ.NP2()}, extra=['--integrator', i], mask=False)
    V.true('the name is stored', S.params.integrator == i)
    if i == 'BS5_adaptive':
        return
    lam = poly.atom('lam', 'lambda')
    u = S.c.u
    sofar = []

    def rhs(r, v, solver, /, **context):
        r[...] = v*lam
        return r
    S.s.ComputeRHS = rhs
    arr.garbage(S.c.dU, 'rhs')
    dt = S.params.dt
    S.params.tstep = 0
    step = S.s.getintegrator(S.c.dU, u, S.s, S.c)
    z = lam*dt
    x = SArr.named('state', u.grid, u.comps, 'complex128')
    u[...] = x
    step()
    one = Poly.of(1)
    if i == 'RK4':
        g = one + z + z*z*rat('1/2') + z*z*z*rat('1/6') + z*z*z*z*rat('1/24')
    elif i in ('ForwardEuler', 'AB2'):
        g = one + z
    else:
        g = bs5(z)
    V.eq('growth over the first step', u, x*g)
    x1 = x*g
    S.params.tstep = 1
    step()
    V.eq('growth over two steps', u, x1 + (x1*rat('3/2') - x*rat('1/2'))*z if i == 'AB2' else x1*g)


rat = integ.rat


def bs5(z):
    k = []
    for row in integ.BS5_A:
        v = Poly.of(1)
        for a, q in zip(row, k):
            v = v + rat(a)*z*q
        k.append(v)
    r = Poly.of(1)
    for b, q in zip(integ.BS5_b, k):
        r = r + rat(b)*z*q
    return r
