"""Selection by name on the real package: solvers, forms, integrators, hooks, orders of selection."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import harness as H
import numpy as np
import importlib, random, itertools
from math import pi

SEED = int(os.environ.get('VERIF_SEED', '1'))
THOROUGH = os.environ.get('VERIF_TIER') == 'thorough'
R = H.Report('C20')
H.enter_scratch(); H.use()
rng = random.Random(SEED)
MESH = {'triplyperiodic': ['NS', 'VV', 'MHD'], 'doublyperiodic': ['NS2D', 'Bq2D'],
        'channel': ['KMM', 'KMMr', 'KMMRK3', 'KMM_RB', 'KMMRK3_RB', 'Coupled', 'CoupledRK3']}
EXTRA = {'MHD': {'eta': 0.01}, 'Bq2D': {'Ri': 0.1, 'Pr': 1.0}}
FORMS = {'triplyperiodic': ('Standard', 'Divergence', 'Skewed', 'Vortex'), 'doublyperiodic': ('Vortex',),
         'channel': ('Standard', 'Divergence', 'Skew', 'Vortex')}
ONLY = {'VV': ('Vortex',), 'NS2D': ('Vortex',), 'Bq2D': ('Vortex',), 'MHD': ('Divergence',)}
HOOKS = ('update', 'regression_test', 'additional_callback')
ALL = [(m, s) for m in MESH for s in MESH[m]]
OWN = ('get_context', 'getConvection', 'ComputeRHS', 'getintegrator', 'end_of_tstep')


def imp():
    H.purge()
    sd = importlib.import_module('spectralDNS')
    return sd, sd.config


def refused(f):
    err = sys.stderr
    sys.stderr = open(os.devnull, 'w')
    try:
        f()
    except (Exception, SystemExit):
        return True
    finally:
        sys.stderr.close()
        sys.stderr = err
    return False


class Nothing:
    def __getattr__(self, n):
        raise RuntimeError('the default hook uses the context')


def state(name, sd, cfg, sol, m, s, hooks, mine):
    p = cfg.params
    R.check('%s: the module of that name' % name, sol.__name__ == 'spectralDNS.solvers.' + s and cfg.solver is sol and sol.params is p, got=sol.__name__)
    for h in HOOKS:
        f = getattr(sol, h)
        if h in hooks:
            R.check('%s: %s is the one given' % (name, h), f is hooks[h])
        else:
            R.check('%s: %s is the default' % (name, h), not any(f is x for x in mine) and f(Nothing()) is None)
    n = 2 if m == 'doublyperiodic' else 3
    want = dict(solver=s, dt=0.01, nu=0.000625, t=0.0, tstep=0, T=0.1, convection='Vortex', dealias='2/3-rule', filemode='w', precision='double',
                optimization='', verbose=True, mask_nyquist=True, h5filename='results', decomposition='slab',
                integrator={'channel': 'implicitRK3' if s.startswith('KMMRK3') else 'implicit'}.get(m, 'RK4'), **EXTRA.get(s, {}))
    for k, v in want.items():
        got = dict.get(p, k, 'MISSING')
        R.check('%s: %s' % (name, k), got == v and isinstance(got, str) == isinstance(v, str), got=repr(got), want=repr(v))
    R.check('%s: mesh size' % name, [int(x) for x in p.N] == [64]*n and [int(x) for x in p.M] == [6]*n, got=repr(p.N))
    L = [2*pi]*n if m != 'channel' else [2, 2*pi, 2*pi]
    R.check('%s: domain' % name, np.allclose(p.L, L) if len(p.L) == n else False, got=repr(p.L))
    if len(p.L) == len(p.N):
        R.check('%s: mesh spacing' % name, np.allclose(p.dx, np.array(L)/64), got=repr(p.dx))


def names():
    for m, s in ALL:
        with R.guard('%s %s' % (m, s)):
            sd, cfg = imp()
            mine = []
            for k in range(8):
                hooks = {h: (lambda c: 1) for i, h in enumerate(HOOKS) if k >> i & 1}
                mine += hooks.values()
                sol = sd.get_solver(mesh=m, parse_args=[s], **hooks)
                state('%s with hooks %s' % (s, '+'.join(hooks) or 'none'), sd, cfg, sol, m, s, hooks, mine)
            for f in FORMS[m]:
                sol = sd.get_solver(mesh=m, parse_args=['--convection', f, s])
                R.check('%s: form %s on the command line' % (s, f), cfg.params.convection == f)
                if f in ONLY.get(s, (f,)):
                    with R.guard('%s: form %s' % (s, f)):
                        g = sol.getConvection(f)
                        R.check('%s: form %s is that form' % (s, f), g.convection == f, got=g.convection)
                else:
                    R.check('%s: form %s is refused' % (s, f), refused(lambda: sol.getConvection(f)))
            for f in ('Unknown', 'vortex'):
                R.check('%s: form %s is refused' % (s, f), refused(lambda: sol.getConvection(f)) and
                        refused(lambda: sd.get_solver(mesh=m, parse_args=['--convection', f, s])))
            for i in ('Unknown', 'rk4'):
                a = ['--integrator', i, s] if m != 'channel' else [s, '--integrator', i]
                R.check('%s: integrator %s is refused' % (s, i), refused(lambda: sd.get_solver(mesh=m, parse_args=a)))
    for m in MESH:
        sd, cfg = imp()
        for s in sorted({x for v in MESH.values() for x in v} | {'Unknown', 'spectralinit', 'ns', ''}):
            if s not in MESH[m]:
                R.check('%s: solver %s is refused' % (m, s), refused(lambda: sd.get_solver(mesh=m, parse_args=[s])))
        R.check('%s: no solver is refused' % m, refused(lambda: sd.get_solver(mesh=m, parse_args=[])))
        for a in getattr(cfg, m)._subparsers._group_actions:
            for s in a.choices:
                R.check('%s: the accepted name %s resolves to a solver' % (m, s), not refused(lambda: sd.get_solver(mesh=m, parse_args=[s])))


def orders():
    pairs = list(itertools.product(ALL, ALL))
    if not THOROUGH:
        pairs = [((om, o), (m, s)) for (om, o), (m, s) in pairs]
    for (m, s) in ALL:
        sd, cfg = imp()
        mine, own = [], {}
        for (om, o) in ALL:
            name = '%s after %s' % (s, o)
            with R.guard(name):
                n = 2 if om == 'doublyperiodic' else 3
                hooks = {h: (lambda c: 1) for h in HOOKS}
                mine += hooks.values()
                a = sd.get_solver(mesh=om, parse_args=['--dt', '0.5', '--nu', '0.25', '--t', '3', '--tstep', '4', '--M'] + ['3']*n + ['--L'] + ['1']*n +
                                  ['--dealias', 'None', '--filemode', 'r', '--h5filename', 'x', '--no-verbose', '--no-mask_nyquist', o] +
                                  {'MHD': ['--eta', '0.5'], 'Bq2D': ['--Ri', '0.5', '--Pr', '0.5']}.get(o, []), **hooks)
                cfg.params.N = [5]*n
                cfg.params.dt = 0.125
                cfg.params.kappa = 0.5
                b = sd.get_solver(mesh=m, parse_args=[s])
                state(name, sd, cfg, b, m, s, {}, mine)
                for h in OWN:
                    own.setdefault(h, getattr(b, h))
                    R.check('%s: %s is its own' % (name, h), getattr(b, h) is own[h])
                if a is not b:
                    R.check('%s: the other solver keeps its hooks' % name, all(getattr(a, h) is hooks[h] for h in HOOKS))
                if om != m:
                    cfg.update({'N': [7]*n}, om)
                    sd.get_solver(mesh=om, parse_args=[o])
                    R.check('%s: a size given through update' % o, [int(x) for x in cfg.params.N] == [7]*n, got=repr(cfg.params.N))
                    b = sd.get_solver(mesh=m, parse_args=[s])
                    state(name + ' with a size set through update', sd, cfg, b, m, s, {}, mine)


def run():
    """Real runs: one or two steps on small meshes, the selected form, integrator and hooks in use."""
    for m, s in ALL:
        ints = [('args', i) for i in ('RK4', 'ForwardEuler', 'AB2', 'BS5_fixed', 'BS5_adaptive')] if m != 'channel' else [(None, None)]
        forms = [f for f in FORMS[m] if f in ONLY.get(s, (f,))]
        for _, i in ints:
            for f in forms if THOROUGH else forms[:1] + forms[-1:]:
                if i and f is not forms[-1] and i != 'RK4':
                    continue
                name = '%s %s %s' % (s, i, f)
                with R.guard(name):
                    sd, cfg = imp()
                    n = 2 if m == 'doublyperiodic' else 3
                    log = []
                    hooks = {'update': lambda c: log.append(('update', c)), 'regression_test': lambda c: log.append(('regression_test', c)),
                             'additional_callback': lambda c: log.append(('additional_callback', c))}
                    M = ['3']*n if m != 'channel' else (['4', '2', '2'] if s != 'KMMr' else ['2', '2', '4'])
                    args = ['--M'] + M + ['--dt', '0.001', '--T', '0.002', '--no-verbose', '--convection', f] + (['--integrator', i] if i else [])
                    if m == 'channel' and s == 'KMMr':
                        args += ['--L', '2*pi', '2*pi', '2']
                    if s.endswith('_RB'):
                        cfg.update({'kappa': 0.1, 'Ra': 100.0, 'Pr': 1.0}, 'channel')
                    sol = sd.get_solver(mesh=m, parse_args=args + [s], **hooks)
                    with H.quiet():
                        c = sol.get_context()
                    c.hdf5file = type('F', (), {'update': lambda self, params, **k: log.append(('file', c)), 'close': lambda self: None})()
                    lam = -3.0
                    if i and s != 'Bq2D':
                        r = np.random.default_rng(SEED)
                        x = c.u.copy()
                        x[...] = 1+r.random(x.shape)
                        c.u[...] = x

                        def rhs(rhs_, v, solver, /, **k):
                            rhs_[...] = lam*v
                            return rhs_
                        sol.ComputeRHS = rhs
                        sol.end_of_tstep = lambda c: False
                    # a form an earlier run may have left behind: the one of that name of another solver
                    for m2, s2 in ALL:
                        if s2 != s and f in FORMS[m2] and f in ONLY.get(s2, (f,)):
                            sol.conv = importlib.import_module('spectralDNS.solvers.' + s2).getConvection(f)
                    own = sol.getConvection(f)
                    with H.quiet():
                        sd.solve(sol, c)
                    a, b = getattr(sol.conv, '__code__', None), getattr(own, '__code__', None)
                    R.check('%s: the selected form is used' % name, sol.conv.convection == f and (a is b or a is None or b is None))
                    steps = cfg.params.tstep
                    R.check('%s: steps' % name, steps >= 1)
                    want = []
                    L = [x for x in log if x[0] != 'additional_callback']
                    R.check('%s: hooks called with the context' % name, [x[0] for x in L] == ['update', 'file']*steps + ['regression_test'] and
                            all(x[1] is c for x in log), got=[x[0] for x in L])
                    if i and s != 'Bq2D':
                        z = lam*0.001
                        g = {'ForwardEuler': lambda: (1+z)**2, 'AB2': lambda: (1+z)+z*(1.5*(1+z)-0.5),
                             'RK4': lambda: (1+z+z**2/2+z**3/6+z**4/24)**2}.get(i, lambda: np.exp(2*z))()
                        if i == 'BS5_adaptive':
                            R.check('%s: the step size changes' % name, steps == 1 or cfg.params.t != 0.002, got=[steps, float(cfg.params.t)])
                            g = np.exp(lam*float(cfg.params.t))
                        else:
                            R.check('%s: two steps' % name, steps == 2, got=steps)
                        R.close('%s: growth' % name, H.relerr(np, c.u, x*g), 1e-12 if i != 'BS5_adaptive' else 1e-6)


if __name__ == '__main__':
    names()
    orders()
    run()
    R.done()
