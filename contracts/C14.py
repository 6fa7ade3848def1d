"""Parameters: the store (Params), the defaults (update) and the selection (get_solver) for arbitrary values."""
from .common import *
from vc.sym import compare, choose, ContractFailure
from vc.load import Fake, _MPI
import numpy as np

META = dict(
    functions=['spectralDNS.config.AttributeDict', 'spectralDNS.config.Params', 'spectralDNS.config.update', 'spectralDNS.config.PlanAction',
               'the argument parsers of spectralDNS.config', 'spectralDNS.get_solver',
               'get_context of the twelve solver modules (what it asks shenfun for)'],
    trusted=['the VC generator vc/', 'z3',
             'argparse and collections.abc of the standard library are executed, not modelled: they pass option values through without looking into them',
             'text of a symbolic number reads back as that number (str, int, float, eval)', 'numpy.array keeps the elements it is given; float32/float64 are uninterpreted conversions'],
    assumptions=['option values are arbitrary numbers; a parameter name outside the documented ones is represented by one fresh name',
                 'the documented defaults are the table DEFAULTS of contracts/C14.py'],
    bounded='the same relations on the real module with random values, precisions and orders of setting')

PI = np.pi
GENERIC = dict(precision='double', optimization='', make_profile=0, dt=0.01, T=0.1, write_result=1e8, checkpoint=1e8, nu=0.000625, t=0.0, tstep=0,
               filemode='w', dealias='2/3-rule', decomposition='slab', ntol=7, threads=1, h5filename='results', verbose=True, mask_nyquist=True,
               convection='Vortex')
QUAD = dict(Dquad='GC', Bquad='GC', Nquad='GC')
DEFAULTS = {'triplyperiodic': dict(GENERIC, TOL=1e-6, integrator='RK4', M=[6, 6, 6], L=[2*PI, 2*PI, 2*PI]),
            'doublyperiodic': dict(GENERIC, TOL=1e-6, integrator='RK4', M=[6, 6], L=[2*PI, 2*PI]),
            'channel': dict(GENERIC, M=[6, 6, 6], L=[2, 2*PI, 2*PI], **QUAD)}
SOLVERS = {'triplyperiodic': {'NS': {}, 'VV': {}, 'MHD': {'eta': 0.01}},
           'doublyperiodic': {'NS2D': {}, 'Bq2D': {'Ri': 0.1, 'Pr': 1.0}},
           'channel': {'KMM': {'integrator': 'implicit'}, 'KMMr': {'integrator': 'implicit'}, 'KMMRK3': {'integrator': 'implicitRK3'},
                       'KMM_RB': {'integrator': 'implicit'}, 'KMMRK3_RB': {'integrator': 'implicitRK3'}, 'Coupled': {'integrator': 'implicit'},
                       'CoupledRK3': {'integrator': 'implicit'}}}
REALS = ('dt', 'T', 'nu', 't')
INTS = ('make_profile', 'write_result', 'checkpoint', 'tstep', 'ntol', 'threads')
CHOICES = {'precision': ('double', 'single'), 'optimization': ('cython', 'numba', 'pythran'), 'filemode': ('w', 'r', 'a'),
           'dealias': ('2/3-rule', '3/2-rule', 'None'), 'decomposition': ('slab', 'pencil')}
PHYSICAL = ('nu', 'dt', 'Ri', 'Pr', 'eta')


class World:
    def __init__(self, V, modules=None):
        """modules: fakes under which the real solver modules are loaded; None: every solver module is a stand-in."""
        self.tok = tok = {}

        class IntMeta(type):
            def __instancecheck__(cls, x):
                return isinstance(x, int)

            def __eq__(cls, o):
                return o is cls or o is int

            def __hash__(cls):
                return hash(int)

        class VInt(int, metaclass=IntMeta):
            def __new__(cls, x=0, *a):
                if isinstance(x, str) and x in tok:
                    x = tok[x]
                if isinstance(x, Poly) and not x.is_const():
                    if all(poly.ATOMS[i].kind == 'int' for i in poly.atoms_of(x)):
                        return x
                    raise Unsupported('truncation of a symbolic number')
                return int(x, *a)

        class FloatMeta(type):
            def __instancecheck__(cls, x):
                return isinstance(x, float)

            def __eq__(cls, o):
                return o is cls or o is float

            def __hash__(cls):
                return hash(float)

        class VFloat(float, metaclass=FloatMeta):
            def __new__(cls, x=0.0):
                if isinstance(x, str) and x in tok:
                    x = tok[x]
                return x if isinstance(x, Poly) else float(x)

        def veval(text, g=None, l=None):
            if not isinstance(text, str):
                raise ContractFailure('eval of a non-string')
            return eval(text, g if g is not None else {}, dict(l or {}, **tok))

        def array(val, dtype=None, **k):
            val = list(val) if not isinstance(val, np.ndarray) else val
            if any(isinstance(x, Poly) for x in val):
                r = np.empty(len(val), dtype=object)
                r[:] = val
                return r
            return np.array(val, dtype={VInt: int, VFloat: float}.get(dtype, dtype) if isinstance(dtype, type) else dtype)

        def conv(name, real):
            class C(real):
                def __new__(cls, x=0):
                    return poly.opaque(name, x) if isinstance(x, Poly) else real(x)
            return C
        self.f32, self.f64 = conv('float32', np.float32), conv('float64', np.float64)
        self.pi = poly.atom('pi', 'pi', positive=True)
        numpy_ = Fake('numpy', pi=PI, array=array, float32=self.f32, float64=self.f64, asarray=array, ndarray=np.ndarray)
        over = {}
        if modules is not None:
            over['spectralDNS.shen.LUsolve'] = Fake('spectralDNS.shen.LUsolve')
        else:
            for mesh in SOLVERS.values():
                for s in mesh:
                    over['spectralDNS.solvers.%s' % s] = Fake('spectralDNS.solvers.%s' % s, update=None, regression_test=None, additional_callback=None)
            over['spectralDNS.solvers.spectralinit'] = Fake('spectralDNS.solvers.spectralinit', update=None, regression_test=None, additional_callback=None)
            over['spectralDNS.solvers'] = Fake('spectralDNS.solvers')
        self.L = load.Loader({**(modules or {}), 'numpy': numpy_, 'mpi4py': Fake('mpi4py', MPI=_MPI)}, overrides=over,
                             builtin=dict(int=VInt, float=VFloat, eval=veval))
        self.sd = self.L.load('spectralDNS')
        self.cfg = self.L.load('spectralDNS.config')
        V.files |= self.L.files

    def num(self, name, kind='real', **k):
        p = poly.atom(name, name, kind=kind, **k)
        self.tok[name] = p
        self.tok[str(p)] = p
        return p

    def conv(self, x, precision):
        """The value delivered for a physical coefficient."""
        return (self.f32 if precision == 'single' else self.f64)(x)


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray) or isinstance(a, (list, tuple)):
        a, b = list(a), list(b)
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, Poly) or isinstance(b, Poly):
        try:
            return Poly.of(a).same(Poly.of(b))
        except TypeError:
            return False
    return type(a) == type(b) and a == b or (isinstance(a, (int, float, np.number)) and isinstance(b, (int, float, np.number)) and a == b and not isinstance(a, bool))


def prove(V):
    for first in ('M', 'N', 'M only'):
        for how in ('attribute', 'item', 'update'):
            for typ in ('numbers', 'text'):
                V.case('mesh size: %s first, by %s, as %s' % (first, how, typ), lambda: mesh(V, first, how, typ))
    for how in ('attribute', 'item', 'update'):
        V.case('domain size by %s' % how, lambda: domain(V, how))
    for prec in ('single', 'double'):
        for how in ('attribute', 'item', 'update'):
            V.case('coefficients by %s, %s' % (how, prec), lambda: coefficients(V, how, prec))
    V.case('any other parameter', lambda: anyother(V))
    for m, ss in SOLVERS.items():
        for s in ss:
            V.case('%s %s: documented defaults' % (m, s), lambda: defaults(V, m, s))
            V.case('%s %s: update, then command line' % (m, s), lambda: updates(V, m, s))
            V.case('%s %s: zeros and falses' % (m, s), lambda: special(V, m, s))
            V.case('%s %s: update twice, other problem types untouched' % (m, s), lambda: twice(V, m, s))
    V.case('planner effort', lambda: planner(V))
    for m, ss in SOLVERS.items():
        for s in ss:
            for dec in CHOICES['decomposition']:
                V.case('%s %s: the spaces and the files are made as configured, %s' % (m, s, dec), lambda: configured(V, m, s, dec))


def configured(V, m, s, dec):
    """What get_context asks the library for, against the parameters in force."""
    from .chancommon import channel
    made = []

    def tweak(F):
        sh = F['shenfun']
        real = sh.TensorProductSpace

        def TensorProductSpace(comm, bases, *a, **k):
            T = real(comm, bases, *a, **k)
            made.append((T, list(bases), k))
            return T
        sh.TensorProductSpace = TensorProductSpace
    n = len(DEFAULTS[m]['M'])
    extra = ['--threads', '3', '--decomposition', dec, '--h5filename', 'chosen', '--planner_effort', '{"fft": "X", "dct": "Y"}']
    if m == 'channel':
        # Dquad and Bquad have to agree; the quadrature of every basis is compared in C10 to C12
        S = channel(V, s, tweak=tweak, extra=extra)
        spaces = [x for x in made if 'backward_from_pencil' not in x[2]]
        effort = 'Y'
    else:
        S = periodic(V, s, tweak=tweak, extra=extra + ['--M'] + ['3', '4', '5'][:n] + ['--L'] + ['3', '5', '7'][:n])
        spaces = [x for x in made if 'backward_from_pencil' not in x[2]]
        effort = 'X'
        for k, (T, bases, _) in enumerate(spaces):
            V.true('space %d: points per direction' % k, [int(b.N) for b in bases] == [8, 16, 32][:n])
            V.true('space %d: length per direction' % k, [tuple(map(float, b.kw['domain'])) for b in bases] == [(0., 3.), (0., 5.), (0., 7.)][:n])
    V.true('a space is made', len(spaces) >= 1)
    for k, (T, bases, kw) in enumerate(spaces):
        V.true('space %d: threads' % k, kw.get('threads') == 3)
        V.true('space %d: decomposition' % k, kw.get('slab', False) == (dec == 'slab'))
        V.true('space %d: planner effort' % k, kw.get('planner_effort') == effort)
    V.true('the output files have the configured name (%s)' % s, S.c.hdf5file.filename == 'chosen')


def put(w, how, key, val):
    p = w.cfg.params
    if how == 'attribute':
        setattr(p, key, val)
    elif how == 'item':
        p[key] = val
    else:
        p.update({key: val})


def frozen(a):
    try:
        return not a.flags.writeable
    except AttributeError:
        return False


def mesh(V, first, how, typ):
    w = World(V)
    p = w.cfg.params
    n = choose(2, 'dim') + 2
    M = [w.num('M%d' % i, 'int', info=('ge1',)) for i in range(n)]
    N = [w.num('N%d' % i, 'int', info=('ge1',)) for i in range(n)]
    L = [w.num('L%d' % i, positive=True) for i in range(n)]
    t = (lambda l: [str(x) for x in l]) if typ == 'text' else (lambda l: list(l))
    p['precision'] = 'double'
    order = {'M': ['M', 'N'], 'N': ['N', 'M'], 'M only': ['M']}[first]
    put(w, how, 'L', t(L))
    for k in order:
        src = t(M if k == 'M' else N)
        keep = list(src)
        put(w, how, k, src)
        V.true('the list given is not modified', src == keep if typ == 'text' else all(a is b for a, b in zip(src, keep)))
        if k == 'M' and 'N' not in dict.keys(p):
            V.true('N is 2**M while N is not given', same(p.N, [Poly.of(2)**m for m in M]))
    V.true('M is what was given', same(p.M, M) and same(p['M'], M))
    want = N if 'N' in order else [Poly.of(2)**m for m in M]
    V.true('N is what was given, 2**M otherwise', same(p.N, want))
    if 'N' in order:
        V.true('N by item and attribute agree', p.N is p['N'])
    V.true('M by item and attribute agree', p.M is p['M'])
    dx = p.dx
    V.true('one mesh spacing per direction', len(dx) == n)
    for i in range(n):
        V.eq('the mesh spacing is length over size in direction %d' % i, Poly.of(dx[i])*want[i], L[i])
    V.true('sizes cannot be changed in place', frozen(p.M) and ('N' not in order or frozen(p.N)))
    # a later value replaces an earlier one
    M2 = [w.num('MM%d' % i, 'int', info=('ge1',)) for i in range(n)]
    put(w, how, 'M', t(M2))
    V.true('a new M replaces the old one', same(p.M, M2) and same(p.N, N if 'N' in order else [Poly.of(2)**m for m in M2]))
    N2 = [w.num('NN%d' % i, 'int', info=('ge1',)) for i in range(n)]
    put(w, how, 'N', t(N2))
    V.true('a new N replaces the old one', same(p.N, N2) and same(p.M, M2))
    for i in range(n):
        V.eq('the mesh spacing follows in direction %d' % i, Poly.of(p.dx[i])*N2[i], L[i])


def domain(V, how):
    w = World(V)
    p = w.cfg.params
    a, b = w.num('aa', positive=True), w.num('bb', positive=True)
    p['precision'] = 'double'
    p['M'] = [3, 4, 5]
    cases = [([a, b, a*b], [a, b, a*b]),
             (['aa', '2*bb', '4.5'], [a, 2*b, 4.5]),
             (['2*pi', 'aa*pi', 'pi/bb'], [2*PI, a*PI, PI/b]),
             (['2*pi', '6*pi', '(pi+2)/3-1'], [2*PI, 6*PI, (PI+2)/3-1]),
             ([2*PI, 4, '3'], [2*PI, 4.0, 3.0])]
    for val, want in cases:
        if val[-1] is not None and isinstance(val[2], Poly):
            w.tok[str(val[2])] = val[2]
        put(w, how, 'L', val)
        V.true('lengths are the values of their expressions: %s' % (val,), same(list(p.L), want))
        V.true('lengths by item and attribute agree: %s' % (val,), p.L is p['L'])
        V.true('lengths cannot be changed in place: %s' % (val,), frozen(p.L))
        V.true('other parameters stay: %s' % (val,), set(dict.keys(p)) == {'precision', 'M', 'L'} and same(p.M, [3, 4, 5]))


def coefficients(V, how, prec):
    w = World(V)
    p = w.cfg.params
    order = choose(2, 'precision set last')
    if not order:
        put(w, how, 'precision', prec)
    val = {k: w.num('v_'+k) for k in PHYSICAL}
    for k in PHYSICAL:
        put(w, how, k, val[k])
    if order:
        put(w, how, 'precision', prec)
    for k in PHYSICAL:
        V.eq('%s is delivered in %s precision' % (k, prec), Poly.of(getattr(p, k)), w.conv(val[k], prec))
        V.eq('%s: the stored value is the one given' % k, Poly.of(p[k]), val[k])
    other = 'single' if prec == 'double' else 'double'
    put(w, how, 'precision', other)
    for k in PHYSICAL:
        V.eq('%s follows a change of precision' % k, Poly.of(getattr(p, k)), w.conv(val[k], other))
    v2 = w.num('again')
    put(w, how, 'dt', v2)
    V.eq('a new step size replaces the old one', Poly.of(p.dt), w.conv(v2, other))
    V.eq('the viscosity stays', Poly.of(p.nu), w.conv(val['nu'], other))
    for k in PHYSICAL:
        # concrete numbers carry the type of the precision
        put(w, how, k, 0.1)
        put(w, how, 'precision', prec)
        V.true('%s has the number type of the precision' % k, isinstance(getattr(p, k), np.float32 if prec == 'single' else np.float64) and
               abs(float(getattr(p, k))-0.1) < 1e-7)


def anyother(V):
    w = World(V)
    p = w.cfg.params
    names = ['t', 'T', 'tstep', 'TOL', 'kappa', 'convection', 'write_result', 'a fresh name']
    p['precision'] = 'double'
    stored = {}
    for i, k in enumerate(names):
        v = object()
        put(w, ('attribute', 'item', 'update')[i % 3], k, v)
        stored[k] = v
        V.true('%s: item and attribute agree' % k, p[k] is v and getattr(p, k) is v and p.get(k) is v and k in p)
        V.true('%s: nothing else changes' % k, set(dict.keys(p)) == {'precision'} | set(stored) and all(p[x] is stored[x] for x in stored))
    for k in names:
        v = object()
        if choose(2, 'how'):
            p[k] = v
        else:
            setattr(p, k, v)
        V.true('%s: a new value replaces the old one' % k, p[k] is v and getattr(p, k) is v)
        stored[k] = v
    V.true('the size is the number of parameters', len(p) == len(names)+1 and set(p) == set(names) | {'precision'})
    del p['kappa']
    V.true('deleting removes both ways of access', 'kappa' not in p and p.get('kappa') is None)
    a = w.cfg.AttributeDict({'x': 1, 'y': stored})
    V.true('AttributeDict: item and attribute agree', a.x == 1 and a['x'] == 1 and a.y is a['y'])
    a.z = stored
    a['x'] = 3
    V.true('AttributeDict: assignment by either way', a['z'] is stored and a.x == 3 and len(a) == 3)
    del a.z
    V.true('AttributeDict: deletion by attribute', 'z' not in a and len(a) == 2)


def select(w, m, s, args=(), sub=()):
    return w.sd.get_solver(mesh=m, parse_args=list(args) + [s] + list(sub))


def stored(w, k):
    return dict.__getitem__(w.cfg.params, k)


def expect(V, w, m, s, want, who):
    want = dict(DEFAULTS[m], **dict(SOLVERS[m][s], solver=s, **want))
    p = w.cfg.params
    for k, v in want.items():
        if k == 'L':
            V.true('%s: L' % who, same(list(p.L), [x if isinstance(x, Poly) else float(x) for x in v]))
        else:
            V.true('%s: %s' % (who, k), k in p and same(stored(w, k), v))


def defaults(V, m, s):
    w = World(V)
    sol = select(w, m, s)
    V.true('the module of that name is selected', sol is w.L.mods['spectralDNS.solvers.%s' % s] and w.cfg.solver is sol)
    expect(V, w, m, s, {}, 'default')
    V.true('no further parameters', set(dict.keys(w.cfg.params)) == set(DEFAULTS[m]) | set(SOLVERS[m][s]) | {'solver', 'planner_effort'})
    V.true('planner effort', stored(w, 'planner_effort')['fft'] == 'FFTW_MEASURE' and stored(w, 'planner_effort')['dct'] == 'FFTW_MEASURE')


def updates(V, m, s):
    w = World(V)
    n = len(DEFAULTS[m]['M'])
    new = {k: w.num('u_'+k) for k in REALS}
    new.update({k: w.num('u_'+k, 'int') for k in INTS})
    new.update({k: v[-1] for k, v in CHOICES.items()})
    new['h5filename'] = 'some name'
    new['M'] = [w.num('u_M%d' % i, 'int') for i in range(n)]
    new['N'] = [w.num('u_N%d' % i, 'int') for i in range(n)]
    new['L'] = [w.num('u_L%d' % i, positive=True) for i in range(n)]
    new['verbose'], new['mask_nyquist'] = False, False
    new['a fresh name'] = object()
    new['kappa'] = w.num('u_kappa')
    if m != 'channel':
        new['TOL'] = w.num('u_TOL')
        new['integrator'] = 'AB2'
    else:
        new.update(Dquad='GL', Bquad='GL', Nquad='GL')
    if m != 'doublyperiodic':
        new['convection'] = 'Divergence'
    for k in ('eta', 'Ri', 'Pr'):
        if k in SOLVERS[m][s]:
            new[k] = w.num('u_'+k)
    given = dict(new)
    w.cfg.update(new, m)
    V.true('update does not apply before the selection', len(w.cfg.params) == 0)
    select(w, m, s)
    expect(V, w, m, s, given, 'update')
    p = w.cfg.params
    # the command line overrides every value set through update
    args, sub, want = [], [], dict(given)
    for k in REALS:
        want[k] = w.num('c_'+k)
        args += ['--'+k, 'c_'+k]
    for k in INTS:
        want[k] = w.num('c_'+k, 'int')
        args += ['--'+k, 'c_'+k]
    for k, v in CHOICES.items():
        want[k] = v[0]
        args += ['--'+k, v[0]]
    want['h5filename'] = 'cl'
    args += ['--h5filename', 'cl']
    want['M'] = [w.num('c_M%d' % i, 'int') for i in range(n)]
    args += ['--M'] + ['c_M%d' % i for i in range(n)]
    want['L'] = [w.num('c_L%d' % i, positive=True)*(1 if i else PI) for i in range(n)]
    args += ['--L', 'c_L0*pi'] + ['c_L%d' % i for i in range(1, n)]
    want['verbose'], want['mask_nyquist'] = True, True
    args += ['--verbose', '--mask_nyquist']
    if m != 'channel':
        want['TOL'] = w.num('c_TOL')
        args += ['--TOL', 'c_TOL']
        want['integrator'] = 'BS5_fixed'
        args += ['--integrator', 'BS5_fixed']
    else:
        want.update(Dquad='GC', Bquad='GC', Nquad='GC')
        args += ['--Dquad', 'GC', '--Bquad', 'GC', '--Nquad', 'GC']
    if m != 'doublyperiodic':
        want['convection'] = 'Standard'
        args += ['--convection', 'Standard']
    for k in ('eta', 'Ri', 'Pr'):
        if k in SOLVERS[m][s]:
            want[k] = w.num('c_'+k)
            sub += ['--'+k, 'c_'+k]
    select(w, m, s, args, sub)
    expect(V, w, m, s, want, 'command line')
    args2 = ['--no-verbose', '--no-mask_nyquist']
    select(w, m, s, args2)
    expect(V, w, m, s, given, 'without the command line again')
    # one option on the command line leaves the others alone
    select(w, m, s, ['--nu', 'c_nu'])
    expect(V, w, m, s, dict(given, nu=want['nu']), 'one command-line option')


def twice(V, m, s):
    w = World(V)
    a, b, c = w.num('a'), w.num('b'), w.num('c')
    w.cfg.update({'nu': a, 'dt': b}, m)
    w.cfg.update({'nu': c}, m)
    for other in SOLVERS:
        if other != m:
            o = sorted(SOLVERS[other])[0]
            select(w, other, o)
            expect(V, w, other, o, {}, 'another problem type')
    select(w, m, s)
    expect(V, w, m, s, {'nu': c, 'dt': b}, 'the last update counts')
    p = w.cfg.params
    prec = 'double'
    V.eq('the coefficient is delivered', Poly.of(p.nu), w.conv(c, prec))
    p.nu = a
    V.eq('a direct assignment replaces the default', Poly.of(p.nu), w.conv(a, prec))
    for k in ('eta', 'Ri', 'Pr'):
        if k in SOLVERS[m][s]:
            x = w.num('x_'+k)
            w.cfg.update({k: x}, m)
            select(w, m, s)
            V.true('%s set through update reaches the solver' % k, same(stored(w, k), x))
            V.eq('%s is delivered' % k, Poly.of(getattr(p, k)), w.conv(x, prec))
            select(w, m, s)
            expect(V, w, m, s, {'nu': c, 'dt': b, **{y: w.tok['x_'+y] for y in ('eta', 'Ri', 'Pr') if 'x_'+y in w.tok}}, 'selected again')
    for t in ('triplyperiodic',):
        if m == t:
            y = w.num('y')
            w.cfg.update({'dt': y})
            select(w, m, s)
            V.true('update is for the triply periodic problem unless told otherwise', same(stored(w, 'dt'), y))


def special(V, m, s):
    """Zero and false are values like any other: set, replaced and overridden."""
    w = World(V)
    reals = [k for k in REALS] + [k for k in ('eta', 'Ri', 'Pr') if k in SOLVERS[m][s]] + (['TOL'] if m != 'channel' else [])
    own = lambda k: k in ('eta', 'Ri', 'Pr')
    zero = {k: 0.0 for k in reals}
    zero.update({k: 0 for k in INTS}, verbose=False, mask_nyquist=False)
    other = {k: w.num('s_'+k) for k in reals}
    other.update({k: w.num('s_'+k, 'int') for k in INTS}, verbose=True, mask_nyquist=True)
    for n, new in enumerate((zero, other, zero, other)):
        w.cfg.update(dict(new), m)
        if n < 2:
            select(w, m, s)
            expect(V, w, m, s, new, 'update %d' % (n+1))
    select(w, m, s)
    expect(V, w, m, s, other, 'the last of two updates')
    for k in reals + list(INTS):
        a = ['--'+k, '0']
        select(w, m, s, [] if own(k) else a, a if own(k) else [])
        expect(V, w, m, s, dict(other, **{k: 0}), '%s 0 on the command line' % k)
    w.cfg.update(dict(zero), m)
    for k in reals + list(INTS):
        a = ['--'+k, 's_'+k]
        select(w, m, s, [] if own(k) else a, a if own(k) else [])
        expect(V, w, m, s, dict(zero, **{k: other[k]}), '%s on the command line over zero' % k)


def planner(V):
    first = {m: sorted(SOLVERS[m])[0] for m in SOLVERS}

    def effort(m, **want):
        pe = stored(w, 'planner_effort')
        for k in ('fft', 'dct', 'rfft', 'anything'):
            V.true('%s: planner effort %s' % (m, k), pe[k] == want.get(k, 'FFTW_MEASURE'))
    for m in SOLVERS:
        others = [o for o in SOLVERS if o != m]
        w = World(V)
        given = {'planner_effort': {'fft': 'X', 'dct': 'Y'}, 'nu': 1}
        keep = {'planner_effort': dict(given['planner_effort']), 'nu': 1}
        w.cfg.update(given, m)
        V.true('update keeps the dictionary it is given', given == keep)
        select(w, m, first[m])
        effort(m, fft='X', dct='Y')
        for o in others:
            select(w, o, first[o])
            effort('%s after an update of %s' % (o, m))
        w.cfg.update({'planner_effort': {'rfft': 'V'}}, others[0])
        select(w, m, first[m])
        effort(m, fft='X', dct='Y')
        select(w, others[0], first[others[0]])
        effort(others[0], rfft='V')
        w.cfg.update({'planner_effort': {'fft': 'Z'}}, m)
        select(w, m, first[m])
        effort(m, fft='Z', dct='Y')
        for new in ({}, {'planner_effort': {'fft': 'Z'}}):
            # on the command line, for one selection only
            w = World(V)
            w.cfg.update(new, m)
            base = dict(new.get('planner_effort', {}))
            select(w, m, first[m], ['--planner_effort', '{"dct": "C"}'])
            effort(m + ', command line', **dict(base, dct='C'))
            select(w, m, first[m])
            effort(m + ', without the command line again', **base)
            for o in others:
                select(w, o, first[o])
                effort('%s after a command line for %s' % (o, m))
