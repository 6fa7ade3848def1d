"""Optimised kernels return what the NumPy text returns, for all arguments, and touch nothing else."""
from .common import *
from .kern import module
from . import common, C01, C02, C03, C04, C05
import numpy as _np

META = dict(
    functions=['spectralDNS.optimization.optimizer', 'spectralDNS.maths.cross.cross1', 'spectralDNS.maths.cross.cross2',
               'spectralDNS.maths.integrators.RK4', 'spectralDNS.maths.integrators.ForwardEuler', 'spectralDNS.maths.integrators.AB2',
               'spectralDNS.solvers.NS.add_pressure_diffusion', 'spectralDNS.solvers.Bq2D.add_pressure_diffusion',
               'spectralDNS.solvers.MHD.add_pressure_diffusion', 'spectralDNS.solvers.VV.add_linear',
               'spectralDNS.solvers.KMM.assembleAB', 'spectralDNS.solvers.KMM.compute_vw', 'spectralDNS.solvers.KMM.mult_K1j',
               'spectralDNS.solvers.KMM.add_linear', 'spectralDNS.solvers.KMMr.assembleAB', 'spectralDNS.solvers.KMMr.add_linear',
               'spectralDNS.solvers.Coupled.assembleAB', 'spectralDNS.solvers.KMMRK3.add_linear',
               'cython_maths.in: cross1, cross2, _cross2, _cross3, cross1_2D, cross2_2D, _cross2_2D, _cross3_2D, mult_K1j',
               'cython_integrators.in: RK4, ForwardEuler, AB2, RK4_2D, ForwardEuler_2D, AB2_2D',
               'cython_solvers.in: add_linear_KMM, assembleAB_KMM, add_pressure_diffusion_NS, add_pressure_diffusion_NS2D, add_pressure_diffusion_Bq2D, compute_vw',
               'numba_module.py: all kernels', 'pythran_maths.py, pythran_module.py: all kernels'],
    trusted=TRUSTED_ENGINE + ['cython, numba and pythran compile their source according to Python/C semantics (declarations dropped, integer and rank checks kept)',
                              'decython: the line-based reduction of .in/.pyx text to Python'],
    assumptions=['a right-hand-side function writes only its result array', 'numba fastmath/-Ofast rounding differences are ignored',
                 'array arguments do not overlap unless they are the same array'],
    bounded='kernels compiled from the current text (cython and pythran in scratch, numba) on random arrays of cubic and non-cubic small shapes, double and single precision')

BACK = ('cython', 'numba', 'pythran')
SOLVERS = {3: ('NS', 'VV', 'MHD'), 2: ('NS2D', 'Bq2D')}
CHANNEL = ('KMM', 'KMMr', 'KMMRK3', 'Coupled', 'CoupledRK3', 'KMM_RB', 'KMMRK3_RB')


def prove(V):
    for opt in BACK:
        for prec in (('double', 'single') if opt == 'cython' or V.tier == 'thorough' else ('double',)):
            for dim in (3, 2):
                for solver in SOLVERS[dim]:
                    V.case('%s %s %s' % (opt, prec, solver), lambda: periodic_kernels(V, opt, prec, dim, solver))
        for solver in CHANNEL:
            V.case('%s channel %s' % (opt, solver), lambda: channel_kernels(V, opt, solver))
    for opt in BACK:
        # the callers, with the kernels the dispatcher selects for them, still meet their own contracts
        common.DEFAULT['optimization'] = opt
        try:
            V.case('%s NS right-hand side' % opt, lambda: C01.rhs(V, 'NS', '2/3-rule'))
            V.case('%s NS2D right-hand side' % opt, lambda: C01.rhs(V, 'NS2D', '3/2-rule'))
            V.case('%s NS rotational convection' % opt, lambda: C02.conv(V, 'NS', 'Vortex', '2/3-rule'))
            V.case('%s NS2D rotational convection' % opt, lambda: C02.conv(V, 'NS2D', 'Vortex', '2/3-rule'))
            V.case('%s VV right-hand side' % opt, lambda: C03.rhs(V, '2/3-rule', True))
            V.case('%s MHD right-hand side' % opt, lambda: C04.rhs(V, '2/3-rule', True))
            V.case('%s Bq2D right-hand side' % opt, lambda: C05.rhs(V, '2/3-rule', True))
        finally:
            common.DEFAULT['optimization'] = ''
    for opt in BACK:
        for prec in ('double', 'single'):
            V.case('fallback %s %s' % (opt, prec), lambda: fallback(V, opt, prec))


def clone(x):
    if isinstance(x, SArr):
        return x.copy()
    if isinstance(x, list):
        return [clone(y) for y in x]
    return x


def compare(V, name, fo, fr, args):
    """fo (optimised) and fr (reference) on equal arguments: same result, same effect on every argument."""
    ao, ar = [clone(a) for a in args], [clone(a) for a in args]
    r1 = fr(*ar)
    r2 = fo(*ao)
    V.true('%s: returns a value of the same form' % name, type(r1) is type(r2) or (isinstance(r1, SArr) and isinstance(r2, SArr)))
    cmp_ret(V, name, r2, r1)
    for n, (x, y, orig) in enumerate(zip(ao, ar, args)):
        if isinstance(x, list):
            for i, (p, q) in enumerate(zip(x, y)):
                if isinstance(p, SArr):
                    V.eq('%s: argument %d[%d] afterwards' % (name, n, i), p, q)
        elif isinstance(x, SArr):
            V.eq('%s: argument %d afterwards' % (name, n), x, y)
    for n, (x, y) in enumerate(zip(ao, ar)):
        if y is r1:
            V.same_object('%s: the result is argument %d itself' % (name, n), r2, x)


def cmp_ret(V, name, got, want):
    if isinstance(want, tuple):
        V.true('%s: result has %d parts' % (name, len(want)), isinstance(got, tuple) and len(got) == len(want))
        for i, (g, w) in enumerate(zip(got, want)):
            cmp_ret(V, '%s result %d' % (name, i), g, w)
    elif isinstance(want, SArr) or isinstance(want, (Poly, int, float)):
        V.eq('%s result' % name, got, want)


class Rhs:
    """An arbitrary right-hand side: a fresh field per call, returned in the given array or in another one."""

    def __init__(self, where):
        self.where = where
        self.calls = []

    def ComputeRHS(self, rhs, u, solver, **context):
        k = len(self.calls)
        self.calls.append((u.copy(), solver is self, dict(context)))
        out = SArr.named('R%d' % k, u.grid, u.comps, 'complex128')
        if self.where == 'in place':
            rhs[:] = out
            return rhs
        return out


def integrators(V, so, sr, comps, grid, prec):
    io, ir = so._L.load('spectralDNS.maths.integrators'), sr._L.load('spectralDNS.maths.integrators')
    f = lambda n: SArr.named(n, grid, comps, 'complex128')
    dt = poly.atom('dt', 'dt', positive=True)
    ab = [NP.array([poly.atom('a%d' % i, 'a%d' % i) for i in range(4)]), NP.array([poly.atom('b%d' % i, 'b%d' % i) for i in range(3)])]
    dtype = 'f8' if prec == 'double' else 'f4'

    def both(name, nm, mk):
        fo, fr = getattr(io, nm), getattr(ir, nm)
        for where in ('in place', 'in a new array'):
            Ro, Rr = Rhs(where), Rhs(where)
            ao, ar = mk(), mk()
            lo = '%s, right-hand side returned %s' % (name, where)
            r1 = fr(*ar, Rr, {'c': 1})
            r2 = fo(*ao, Ro, {'c': 1})
            cmp_ret(V, lo, r2, r1)
            V.same_object(lo + ': advances the state in place', r2[0], ao[0])
            V.true(lo + ': same number of evaluations', len(Ro.calls) == len(Rr.calls))
            for k, (x, y) in enumerate(zip(Ro.calls, Rr.calls)):
                V.eq('%s: evaluation %d at the same state' % (lo, k), x[0], y[0])
                V.true('%s: evaluation %d gets solver and context' % (lo, k), x[1] and x[2] == {'c': 1})
            for n, (x, y) in enumerate(zip(ao, ar)):
                # result array and scratch levels: only the state and the previous level are part of the contract
                if isinstance(x, SArr) and (n == 0 or (nm == 'AB2' and n == 1)):
                    V.eq('%s: argument %d afterwards' % (lo, n), x, y)
    both('RK4', 'RK4', lambda: [f('u0'), f('u1'), f('u2'), f('rhs'), *map(vec, ab), dt])
    both('ForwardEuler', 'ForwardEuler', lambda: [f('u0'), f('rhs'), dt])
    for ts in (0, 1, poly.atom('tstep', 'tstep', kind='int', info=('ge1',))):
        both('AB2 tstep=%s' % (ts,), 'AB2', lambda: [f('u0'), f('u1'), f('rhs'), dt, ts])


def vec(x):
    r = _np.empty(len(x), dtype=object)
    r[:] = list(x)
    return r.view(OArr)


class OArr(_np.ndarray):
    """Object array standing for a real coefficient array."""
    @property
    def dtype(self):
        return _np.dtype('float64')


def pair(V, U, solver, opt, prec, mesh=None):
    so, Lo = module(V, U, solver, opt, prec, mesh)
    sr, Lr = module(V, U, solver, '', prec, mesh)
    so._L, sr._L = Lo, Lr
    return so, sr


def wk(U):
    return shen.TPS(U, None, None).local_wavenumbers(scaled=True)


def periodic_kernels(V, opt, prec, dim, solver):
    U = shen.Universe(dim, labels=('g',))
    so, sr = pair(V, U, solver, opt, prec)
    g = U.spec
    fc = lambda n, *c: SArr.named(n, g, c, 'complex128')
    fr = lambda n, *c: SArr.named(n, g, c, 'float64')
    co, cr = so._L.load('spectralDNS.maths.cross'), sr._L.load('spectralDNS.maths.cross')
    c1, c2 = ((3,), (3,)) if dim == 3 else ((), ())
    compare(V, 'cross1', co.cross1, cr.cross1, [fr('c', *c1), fr('a', dim), fr('b', dim)])
    compare(V, 'cross2 wavenumber list', co.cross2, cr.cross2, [fc('c', *c2), wk(U), fc('b', dim)])
    compare(V, 'cross2 real array', co.cross2, cr.cross2, [fc('c', *c2), fr('a', dim), fc('b', dim)])
    if solver in ('NS', 'NS2D', 'MHD', 'VV'):
        integrators(V, so, sr, ((6,) if solver == 'MHD' else (dim,)), g, prec)
    sc = lambda n: poly.atom(n, n, positive=True)
    apo, apr = getattr(so, 'add_pressure_diffusion', None), getattr(sr, 'add_pressure_diffusion', None)
    if solver in ('NS', 'NS2D'):
        compare(V, 'add_pressure_diffusion', apo, apr, [fc('rhs', dim), fc('u', dim), sc('nu'), fr('K2'), wk(U), fc('P'), fr('KK', dim)])
    if solver == 'Bq2D':
        compare(V, 'add_pressure_diffusion', apo, apr, [fc('rhs', 3), fc('u', 3), fc('P'), fr('KK', 2), wk(U), fr('K2'), sc('nu'), sc('Ri'), sc('Pr')])
    if solver == 'MHD':
        compare(V, 'add_pressure_diffusion', apo, apr, [fc('rhs', 6), fc('u', 6), sc('nu'), sc('eta'), fr('K2'), wk(U), fc('P'), fr('KK', 3)])
    if solver == 'VV':
        compare(V, 'add_linear', so.add_linear, sr.add_linear, [fc('rhs', 3), fc('w', 3), sc('nu'), fr('K2'), fc('S', 3)])


class Mat:
    """A wall-normal operator: any function of (argument), fills and returns its output."""

    def __init__(self, name):
        self.name = name

    def matvec(self, v, c):
        out = SArr.named('%s<%s>' % (self.name, v.val[0]), v.grid, v.comps, 'complex128')
        c[...] = out
        return c

    def __getitem__(self, i):
        return Mat('%s[%d]' % (self.name, i))


def channel_kernels(V, opt, solver):
    U = shen.Universe(3, labels=('g',))
    so, sr = pair(V, U, solver, opt, 'double', 'channel')
    g = U.spec
    fc = lambda n, *c: SArr.named(n, g, c, 'complex128')
    fr = lambda n, *c: SArr.named(n, g, c, 'float64')
    sc = lambda n: poly.atom(n, n, positive=True)
    n = 0
    if hasattr(sr, 'assembleAB'):
        compare(V, 'assembleAB', so.assembleAB, sr.assembleAB, [fc('H0', 3), fc('H', 3), fc('H1', 3)])
        n += 1
    if hasattr(sr, 'compute_vw'):
        compare(V, 'compute_vw', so.compute_vw, sr.compute_vw, [fc('u', 3), fc('f'), fc('g'), fr('KK', 2)])
    if hasattr(sr, 'mult_K1j'):
        compare(V, 'mult_K1j', so.mult_K1j, sr.mult_K1j, [wk(U), fc('a'), fc('f', 2)])
    co, cr = so._L.load('spectralDNS.maths.cross'), sr._L.load('spectralDNS.maths.cross')
    compare(V, 'cross1', co.cross1, cr.cross1, [fr('c', 3), fr('a', 3), fr('b', 3)])
    compare(V, 'cross2 wavenumber list', co.cross2, cr.cross2, [fc('c', 3), wk(U), fc('b', 3)])
    if hasattr(sr, 'add_linear'):
        m = [Mat(x) for x in ('AB', 'AC', 'SBB', 'ABB', 'BBB')]
        a = [fc('rhs', 2), fc('u'), fc('g')]
        b = m + [sc('nu'), sc('dt'), fr('K2'), fr('K4')]
        if 'RK3' in solver:
            b += [sc('a'), sc('b')]
        res = []
        for s in (sr, so):
            x = [clone(y) for y in a]
            res.append((s.add_linear(*x, shen.Work(), *b), x))
        V.eq('add_linear result', res[1][0], res[0][0])
        for i in range(3):
            V.eq('add_linear: argument %d afterwards' % i, res[1][1][i], res[0][1][i])


def fallback(V, opt, prec):
    """A routine no backend knows falls back to the decorated text."""
    U = shen.Universe(3, labels=('g',))
    so, Lo = module(V, U, 'NS', opt, prec)
    o = Lo.load('spectralDNS.optimization').optimizer

    def no_such_kernel_(x, y=2):
        return ('numpy', x, y)
    w = o(no_such_kernel_)
    V.true('positional call reaches the NumPy routine', w(1) == ('numpy', 1, 2))
    V.true('keyword call reaches the NumPy routine', w(1, y=5) == ('numpy', 1, 5))
    V.true('the name is kept', w.__name__ == 'no_such_kernel_')
    m = vars(Lo.load('spectralDNS.optimization')).get('%s_%s' % (opt, prec))
    if m is None:
        raise sym.Unsupported('the kernels of %s %s could not be loaded' % (opt, prec))
    V.trusted.add('kernels found for %s %s: %s' % (opt, prec, ' '.join(sorted(k for k in vars(m) if callable(getattr(m, k)) and not k.startswith('__')))))
