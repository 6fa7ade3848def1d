"""Set-up shared by the contracts: symbolic contexts of the real solvers and the mathematical vocabulary."""
import numpy as _np
from vc import poly, sym, arr, load, shen
from vc.poly import Poly
from vc.arr import SArr, NP
from vc.sym import assume

DEALIAS = ('2/3-rule', '3/2-rule', 'None')
MESH = {'NS': 'triplyperiodic', 'VV': 'triplyperiodic', 'MHD': 'triplyperiodic', 'NS2D': 'doublyperiodic', 'Bq2D': 'doublyperiodic'}
CASES = {'NS': 3, 'VV': 3, 'MHD': 3, 'NS2D': 2, 'Bq2D': 2}

TRUSTED_FFT = ['shenfun/mpi4py-fft forward and backward transforms: uninterpreted real-linear maps between the spectral and the physical grid, one per (space, padding, truncation)',
               'shenfun local_wavenumbers(scaled=True): K[i] depends on axis i only, is real, zero at the mean mode, and some K[i] is nonzero at every other mode',
               'shenfun CachedArrayDict: one uninitialised buffer per (shape, dtype, index), zero-filled iff asked',
               'mask_nyquist multiplies pointwise by a mask that is 1 at the mean mode']
TRUSTED_ENGINE = ['the VC generator vc/ (symbolic execution of the real Python text; loops over a grid axis by the per-index rule with carried-value and extent checks)',
                  'polynomial normal form of vc/poly.py (equalities with at most 60 terms re-proved by z3)', 'z3 4.x/5.x',
                  'floating-point arithmetic treated as exact; float literals read as the simplest rational within a few ulp']


def wave(c, U):
    """Wavenumber vector and |K|^2 at the generic points, independent of the repository's own K arrays."""
    g = U.spec
    K = []
    for a in range(U.dim):
        r = SArr.full(g, (), 'float64')
        for p, s in enumerate(g.sites):
            if g.labels[p] != 'z':
                r.val[p] = U.wavenumber(a, s, True, False)
        K.append(r)
    K2 = SArr.full(g, (), 'float64')
    for k in K:
        K2 = K2 + k*k
    return K, K2


class Setup:
    pass


DEFAULT = {'optimization': ''}


def periodic(V, solver, dealias='2/3-rule', convection=None, optimization=None, loops=None, extra=(), fakes=None, precision='double', mask=True, tweak=None):
    if optimization is None:
        optimization = DEFAULT['optimization']
    dim = CASES[solver]
    U = shen.Universe(dim)
    U.nomask = not mask
    F = shen.fakes_periodic(U)
    if fakes:
        F.update(fakes)
    if tweak:
        tweak(F)
    L = load.Loader(F, loops=loops)
    sd = L.load('spectralDNS')
    args = ['--dealias', dealias]
    if optimization:
        args += ['--optimization', optimization]
    args += list(extra) + [solver]
    K = [U.wavenumber(a, U.spec.sites[1], True, False) for a in range(dim)]
    k2 = sum((k*k for k in K[1:]), K[0]*K[0])
    assume(k2 != 0)
    s = sd.get_solver(mesh=MESH[solver], parse_args=args)
    c = s.get_context()
    V.files |= L.files
    S = Setup()
    S.U, S.L, S.sd, S.s, S.c = U, L, sd, s, c
    S.K, S.K2 = wave(c, U)
    S.dim = dim
    S.params = sd.config.params
    S.round, S.solver = '', solver
    coefficients(S)
    S.spec, S.x = U.spec, c.Tp.pgrid() if hasattr(c, 'Tp') else None
    return S


USED = {'NS': ('nu', 'tstep'), 'NS2D': ('nu', 'tstep'), 'VV': ('nu', 'tstep'), 'MHD': ('nu', 'eta', 'tstep'), 'Bq2D': ('nu', 'Ri', 'Pr', 'tstep')}


def coefficients(S, tag='', which=('nu', 'dt', 'Ri', 'Pr', 'eta', 'tstep')):
    """Arbitrary physical coefficients: viscosity, resistivity, step size and Prandtl number positive, Richardson number any real;
    any step of the run."""
    for nm in which:
        if nm == 'tstep':
            S.params['t'] = poly.atom('any time' + tag, 't' + tag)
            S.params['tstep'] = poly.atom('any step' + tag, 'n' + tag, kind='int', info=('ge0',))
        else:
            S.params[nm] = poly.atom(nm + tag, nm + tag, positive=nm != 'Ri')
    S.nu, S.dt = S.params['nu'], S.params['dt']


def rounds(V, S):
    """The contract's body once more in every situation a process can be in, each on a path of its own: another value of one of the
    coefficients on the same context, or a second context for another domain with the coefficients as they were (whatever the code
    keeps and recognises by the rest is found out); and the first problem again after that."""
    name, first = V.case_name.split(' [')[0], (S.c, S.K, S.K2)
    kinds = (None,) + USED[S.solver] + ('domain',)
    what = kinds[sym.choose(len(kinds), 'history')]
    yield S
    if what is None:
        return
    V.case_name, S.round = name + ' [another %s]' % what, "~1"
    L = S.params['L']
    old = {k: S.params[k] for k in ('nu', 'dt', 'Ri', 'Pr', 'eta', 't', 'tstep')}
    if what == 'domain':
        S.U.gen = 1
        dict.__setitem__(S.params, 'L', [poly.atom("L%d'" % a, "L%d'" % a, positive=True) for a in range(S.dim)])
        K = [S.U.wavenumber(a, S.U.spec.sites[1], True, False) for a in range(S.dim)]
        assume(sum((k*k for k in K[1:]), K[0]*K[0]) != 0)
        S.c = S.s.get_context()
        S.K, S.K2 = wave(S.c, S.U)
    else:
        coefficients(S, "~1", (what,))
    yield S
    V.case_name, S.round = name + ' [first problem again]', "~2"
    S.U.gen = 0
    (S.c, S.K, S.K2) = first
    dict.__setitem__(S.params, 'L', L)
    for k, v in old.items():
        S.params[k] = v
    S.nu, S.dt = S.params['nu'], S.params['dt']
    yield S
    V.case_name, S.round = name, ''


def field(S, name, comps=(), grid=None, dtype=complex):
    return SArr.named(name + getattr(S, 'round', ''), grid or S.U.spec, comps, dtype)


def zeros(S, comps=(), grid=None, dtype=complex):
    return SArr.full(grid or S.U.spec, comps, dtype)


def stackv(lst):
    return NP.array(list(lst))


def safe_div(a, b):
    """a/b at modes where b is not identically zero, 0 elsewhere (mean mode)."""
    r = a.like(a.val.copy())
    for ix in _np.ndindex(r.val.shape):
        d = b.val[ix[-1]]
        r.val[ix] = Poly.of(0) if not d.t else a.val[ix]*d.inv()
    return r


def maskarr(S):
    m = S.c.mask
    if m is None:
        return 1
    return m


def cross3(a, b):
    return [a[(i+1) % 3]*b[(i+2) % 3] - a[(i+2) % 3]*b[(i+1) % 3] for i in range(3)]


def bwd(space, x):
    out = SArr.full(space.pgrid(), x.comps, 'float64')
    for ix in _np.ndindex(x.comps):
        out.val[ix + (0,)] = space._bwd([x.val[ix + (j,)] for j in range(x.val.shape[-1])], x.sites())
    return out


def fwd(space, x):
    out = SArr.full(space.U.spec, x.comps, 'complex128')
    for ix in _np.ndindex(x.comps):
        t = space._fwd(x.val[ix + (0,)])
        for j in range(len(t)):
            out.val[ix + (j,)] = t[j]
    return out


def ctx_arrays(c, names):
    d = {}
    for n in names:
        v = c.get(n)
        if isinstance(v, list):
            for i, x in enumerate(v):
                d['%s[%d]' % (n, i)] = x
        elif isinstance(v, SArr):
            d[n] = v
    return d


def dirty_work(S):
    """Scratch buffers start with arbitrary contents: nothing to do, fresh buffers are garbage."""


def scribble(S, names):
    """Give scratch context arrays arbitrary contents (their values are not part of any precondition)."""
    for n in names:
        v = S.c.get(n)
        if isinstance(v, SArr):
            arr.garbage(v, n)
