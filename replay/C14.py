"""Parameters of the real config module: random values, precisions, orders of setting."""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import harness as H
import numpy as np
import importlib, random
from math import pi

SEED = int(os.environ.get('VERIF_SEED', '1'))
THOROUGH = os.environ.get('VERIF_TIER') == 'thorough'
R = H.Report('C14')
H.enter_scratch(); H.use()
rng = random.Random(SEED)
SUB = {'NS': {}, 'VV': {}, 'MHD': {'eta': 0.01}, 'NS2D': {}, 'Bq2D': {'Ri': 0.1, 'Pr': 1.0}}
INTEG = {'KMMRK3': 'implicitRK3', 'KMMRK3_RB': 'implicitRK3'}
MESH = {'triplyperiodic': ['NS', 'VV', 'MHD'], 'doublyperiodic': ['NS2D', 'Bq2D'],
        'channel': ['KMM', 'KMMr', 'KMMRK3', 'KMM_RB', 'KMMRK3_RB', 'Coupled', 'CoupledRK3']}
BASE = dict(precision='double', optimization='', make_profile=0, dt=0.01, T=0.1, write_result=1e8, checkpoint=1e8, nu=0.000625, t=0.0,
            tstep=0, filemode='w', dealias='2/3-rule', decomposition='slab', ntol=7, threads=1, h5filename='results', verbose=True,
            mask_nyquist=True, convection='Vortex')


def documented(mesh, solver):
    d = dict(BASE)
    n = 2 if mesh == 'doublyperiodic' else 3
    d['M'] = [6]*n
    d['L'] = [2*pi]*n
    if mesh == 'channel':
        d.update(L=[2, 2*pi, 2*pi], Dquad='GC', Bquad='GC', Nquad='GC', integrator=INTEG.get(solver, 'implicit'))
    else:
        d.update(TOL=1e-6, integrator='RK4')
    d.update(SUB.get(solver, {}))
    d['solver'] = solver
    return d


def imp():
    H.purge()
    sd = importlib.import_module('spectralDNS')
    return sd, sd.config


def eq(a, b):
    if isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(abs(float(x)-float(y)) <= 1e-14*abs(float(y)) for x, y in zip(a, b))
    return a == b and isinstance(a, str) == isinstance(b, str)


def compare(name, cfg, want):
    with R.guard(name):
        compare_(name, cfg, want)


def compare_(name, cfg, want):
    p = cfg.params
    prec = np.float32 if want['precision'] == 'single' else np.float64
    for k, v in want.items():
        got = dict.get(p, k, 'MISSING')
        R.check('%s: %s' % (name, k), not isinstance(got, str) and not isinstance(v, str) and eq(got, v) or isinstance(v, str) and got == v,
                got=repr(got), want=repr(v))
        if k in ('nu', 'dt', 'Ri', 'Pr', 'eta'):
            a = getattr(p, k)
            R.check('%s: %s by attribute is the stored value in %s precision' % (name, k, want['precision']),
                    isinstance(a, prec) and a == prec(v), got='%r %s' % (a, type(a)))
        else:
            R.check('%s: %s by item and attribute agree' % (name, k), getattr(p, k) is p[k])
    N = want.get('N', [2**int(m) for m in want['M']])
    R.check('%s: N' % name, [int(x) for x in p.N] == list(N), got=repr(p.N), want=repr(N))
    R.check('%s: dx' % name, np.allclose(p.dx, np.array(want['L'], float)/np.array(N, float), rtol=1e-14, atol=0), got=repr(p.dx))
    for k in ('M', 'L'):
        R.check('%s: %s cannot be changed in place' % (name, k), not p[k].flags.writeable)


def rnd(k, n, i):
    r = rng.random
    if k in ('dt', 'T', 'nu', 't', 'TOL', 'eta', 'Ri', 'Pr', 'tstep') and r() < .2:
        return 0 if k == 'tstep' else 0.0
    return {'dt': lambda: r(), 'T': lambda: 10*r(), 'nu': lambda: r(), 't': lambda: r(), 'TOL': lambda: r(), 'eta': lambda: r(),
            'Ri': lambda: r(), 'Pr': lambda: r(), 'tstep': lambda: rng.randrange(100), 'write_result': lambda: rng.randrange(1, 100),
            'checkpoint': lambda: rng.randrange(1, 100), 'make_profile': lambda: rng.randrange(2), 'ntol': lambda: rng.randrange(1, 12),
            'threads': lambda: rng.randrange(1, 8), 'M': lambda: [rng.randrange(1, 9) for _ in range(n)],
            'N': lambda: [rng.randrange(1, 300) for _ in range(n)], 'L': lambda: [1+9*r() for _ in range(n)],
            'precision': lambda: rng.choice(['single', 'double']), 'optimization': lambda: rng.choice(['cython', 'numba', 'pythran']),
            'filemode': lambda: rng.choice('wra'), 'dealias': lambda: rng.choice(['2/3-rule', '3/2-rule', 'None']),
            'decomposition': lambda: rng.choice(['slab', 'pencil']), 'h5filename': lambda: 'f%d' % i,
            'verbose': lambda: rng.random() < .5, 'mask_nyquist': lambda: rng.random() < .5}[k]()


def selections():
    for rep in range(30 if THOROUGH else 4):
        for mesh, ss in MESH.items():
            sd, cfg = imp()
            for s in ss:
                with R.guard('%s %s defaults' % (mesh, s)):
                    sd.get_solver(mesh=mesh, parse_args=[s])
                compare('%s defaults' % s, cfg, documented(mesh, s))
                R.check('%s: nothing but the documented parameters' % s, set(dict.keys(cfg.params))-{'planner_effort'} <=
                        set(documented(mesh, s)) | {'Ri', 'Pr', 'eta'}, got=sorted(dict.keys(cfg.params)))
                if rep == 0:
                    dict.clear(cfg.params)
            for s in ss:
                sd, cfg = imp()
                n = 2 if mesh == 'doublyperiodic' else 3
                state = documented(mesh, s)
                keys = [k for k in ('dt T nu t tstep write_result checkpoint make_profile ntol threads M N L precision filemode dealias '
                                    'decomposition h5filename verbose mask_nyquist').split()]
                if mesh == 'channel':
                    keys.remove('precision')       # the channel solvers are for double precision only
                keys += (['TOL'] if mesh != 'channel' else []) + list(SUB.get(s, {}))
                for step in range(3):
                    new = {k: rnd(k, n, step) for k in rng.sample(keys, rng.randrange(1, len(keys)))}
                    given = dict(new)
                    state.update(new)
                    if mesh == 'triplyperiodic' and rng.random() < .5:
                        cfg.update(new)
                    else:
                        cfg.update(new, mesh)
                    R.check('update keeps the dictionary it is given', new == given)
                    cl = {k: rnd(k, n, step) for k in rng.sample(keys, rng.randrange(0, 6)) if k != 'N'}
                    args, sub = [], []
                    for k, v in cl.items():
                        if k in ('verbose', 'mask_nyquist'):
                            args.append('--'+('' if v else 'no-')+k)
                        elif isinstance(v, list):
                            if k == 'L':
                                v = cl[k] = [rng.choice([1, 2, 3])*pi for _ in v]
                                args += ['--L'] + ['%d*pi' % round(x/pi) for x in v]
                            else:
                                args += ['--'+k] + [str(x) for x in v]
                        elif k in SUB.get(s, {}):
                            sub += ['--'+k, repr(v)]
                        else:
                            args += ['--'+k, str(v)]
                    with R.guard('%s update %r then %r' % (s, given, args+[s]+sub)):
                        sd.get_solver(mesh=mesh, parse_args=args+[s]+sub)
                    compare('%s update %s then command line %s' % (s, given, ' '.join(args+[s]+sub)), cfg, dict(state, **cl))
                    for k, v in cl.items():
                        if k in ('tstep', 'write_result', 'checkpoint', 'ntol', 'threads', 'make_profile'):
                            R.check('%s on the command line is an integer' % k, isinstance(cfg.params[k], int), got=repr(cfg.params[k]))
                    for om in MESH:
                        if om != mesh and rng.random() < .3:
                            os_ = rng.choice(MESH[om])
                            keep = dict(dict.items(cfg.params))
                            dict.clear(cfg.params)
                            with R.guard('%s after updates for %s' % (os_, mesh)):
                                sd.get_solver(mesh=om, parse_args=[os_])
                            compare('%s after updates for %s' % (os_, mesh), cfg, documented(om, os_))
                            dict.clear(cfg.params)
                            dict.update(cfg.params, keep)


def direct():
    for rep in range(200 if THOROUGH else 30):
        sd, cfg = imp()
        p = cfg.params
        p['precision'] = 'double'
        n = rng.choice([2, 3])
        state = dict(precision='double', M=[5]*n, L=[1.0]*n)
        p.M = [5]*n
        p.L = [1.0]*n
        name = []
        for step in range(8):
            k = rng.choice(['M', 'N', 'L', 'dt', 'nu', 'eta', 'Ri', 'Pr', 'precision', 't', 'tstep', 'TOL', 'h5filename'])
            v = rnd(k, n, step)
            how = rng.randrange(3)
            if isinstance(v, list) and rng.random() < .5:
                w = [repr(x) for x in v]
            elif isinstance(v, list) and rng.random() < .3:
                w = np.array(v)
            else:
                w = v
            if k == 'L' and rng.random() < .4:
                e = [rng.choice(['2*pi', 'pi/3', '(1+pi)*2', '4', '4*pi-1']) for _ in v]
                v = [eval(x) for x in e]
                w = e
            name.append('%s=%r' % (k, w))
            with R.guard('params %s' % '; '.join(name)):
                if how == 0:
                    setattr(p, k, w)
                elif how == 1:
                    p[k] = w
                else:
                    p.update({k: w})
            state[k] = v
            compare('params %s' % '; '.join(name), cfg, state)
        for k in ('M', 'L'):
            R.check('%s: a change in place is refused' % k, not p[k].flags.writeable)
        a = cfg.AttributeDict({'x': 1})
        a.y = 2
        a['z'] = 3
        R.check('AttributeDict', a['y'] == 2 and a.z == 3 and a.x == a['x'] == 1 and sorted(a) == ['x', 'y', 'z'] and len(a) == 3)


def planner():
    def effort(name, cfg, **want):
        pe = dict.get(cfg.params, 'planner_effort')
        for k in ('fft', 'dct', 'rfft', 'anything'):
            R.check('%s: planner effort %s' % (name, k), pe[k] == want.get(k, 'FFTW_MEASURE'), got=pe[k])
    for m in MESH:
        others = [o for o in MESH if o != m]
        with R.guard('planner effort %s' % m):
            sd, cfg = imp()
            sel = lambda m, *a: sd.get_solver(mesh=m, parse_args=list(a)+[MESH[m][0]])
            new = {'planner_effort': {'fft': 'X', 'dct': 'Y'}}
            cfg.update(new, m)
            R.check('%s: update keeps the dictionary it is given' % m, new == {'planner_effort': {'fft': 'X', 'dct': 'Y'}} and
                    type(new['planner_effort']) is dict)
            sel(m)
            effort(m, cfg, fft='X', dct='Y')
            for o in others:
                sel(o)
                effort('%s after an update of %s' % (o, m), cfg)
            cfg.update({'planner_effort': {'rfft': 'V'}}, others[0])
            sel(m)
            effort(m, cfg, fft='X', dct='Y')
            sel(others[0])
            effort(others[0], cfg, rfft='V')
            sel(m, '--planner_effort', '{"dct": "C"}')
            effort(m + ', command line', cfg, fft='X', dct='C')
            sel(m)
            effort(m + ', without the command line again', cfg, fft='X', dct='Y')
            sel(others[1])
            effort('%s after a command line for %s' % (others[1], m), cfg)


def configured():
    """The spaces and files the real get_context makes, for random settings in force."""
    import shenfun
    real = shenfun.TensorProductSpace
    cases = [(m, s) for m in MESH for s in MESH[m]]
    for m, s in cases:
        n = 2 if m == 'doublyperiodic' else 3
        sd, cfg = imp()
        made = []

        class Rec(real):
            def __init__(self, comm, bases, *a, **k):
                made.append((self, k))
                real.__init__(self, comm, bases, *a, **k)
        M = [rng.choice([3, 4]) for _ in range(n)] if m != 'channel' else [4] + [rng.choice([2, 3]) for _ in range(2)]
        L = [rng.choice([1, 2, 3, 5]) for _ in range(n)] if m != 'channel' else [2] + [rng.choice([1, 3, 5]) for _ in range(2)]
        if s == 'KMMr':
            M, L = M[::-1], L[::-1]
        th, dec = rng.choice([1, 2]), rng.choice(['slab', 'pencil']) if n == 3 else 'slab'
        eff = {k: rng.choice(['FFTW_MEASURE', 'FFTW_ESTIMATE']) for k in ('fft', 'dct')}
        name = '%s M=%s L=%s threads=%d %s %s' % (s, M, L, th, dec, eff)
        shenfun.TensorProductSpace = Rec
        try:
            with R.guard(name):
                cfg.update({'M': M, 'L': L, 'verbose': False, 'planner_effort': dict(eff)}, m)
                args = ['--threads', str(th), '--decomposition', dec, '--h5filename', 'chosen', s]
                if s == 'MHD':
                    args = ['--convection', 'Divergence'] + args
                sol = sd.get_solver(mesh=m, parse_args=args)
                if s.endswith('_RB'):
                    dict.__setitem__(cfg.params, 'kappa', 0.1)
                c = sol.get_context()
                for T, k in made:
                    if 'backward_from_pencil' in k:
                        continue
                    R.check('%s: threads' % name, k.get('threads') == th, got=k)
                    R.check('%s: decomposition' % name, k.get('slab', False) == (dec == 'slab'), got=k)
                    R.check('%s: planner effort' % name, k.get('planner_effort') == eff['dct' if m == 'channel' else 'fft'], got=k)
                T = dict.get(c, 'T') or dict.get(c, 'FST') or made[0][0]
                R.check('%s: points' % name, [b.N for b in T.bases] == [2**x for x in M], got=[b.N for b in T.bases])
                for i, b in enumerate(T.bases):
                    d = [float(x) for x in b.domain]
                    R.check('%s: length of direction %d' % (name, i), abs(d[1]-d[0]-L[i]) < 1e-12, got=d)
                R.check('the output files have the configured name (%s)' % s, c.hdf5file.filename == 'chosen', got=c.hdf5file.filename)
        finally:
            shenfun.TensorProductSpace = real


if __name__ == '__main__':
    planner()
    configured()
    selections()
    direct()
    R.done()
