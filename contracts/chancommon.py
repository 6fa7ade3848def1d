"""Set-up shared by the contracts of the wall-bounded solvers."""
import numpy as _np
from vc import poly, sym, arr, load, shen, chan
from vc.poly import Poly
from vc.arr import SArr, NP
from vc.sym import assume
from .common import Setup, field, zeros, stackv, ctx_arrays, scribble, maskarr, cross3, TRUSTED_ENGINE

WALL = {'KMM': 0, 'KMMr': 2, 'KMMRK3': 0, 'KMM_RB': 0, 'KMMRK3_RB': 0, 'Coupled': 0, 'CoupledRK3': 0}
RB = ('KMM_RB', 'KMMRK3_RB')
DEALIAS = ('2/3-rule', '3/2-rule', 'None')

TRUSTED_CHAN = [
    'shenfun wall-normal matrices inner_product((test,i),(trial,j)): uninterpreted complex-linear maps on wall-normal columns, one per (test space, i, trial space, j, quadrature)',
    'shenfun TDMA(mass matrix) inverts that mass matrix in place; the Chebyshev mass matrix is diagonal',
    'shenfun Helmholtz(A, B, a, b) / Biharmonic(S, A, B, a0, a, b) return the solution of (a A + b B) x = rhs / (a0 S + a A + b B) x = rhs per wall-parallel mode',
    'shenfun Matvec.Helmholtz_matvec / Biharmonic_matvec apply the matrices whose diagonals they are given',
    'shenfun transforms: backward evaluates the function whose coefficients are given, so that the projected derivative of a function evaluates to its derivative where the derivative lies in the space; forward is an uninterpreted real-linear map per space',
    'shenfun project(form, space) solves the mass matrix of the space against the inner product of the form',
    'local_wavenumbers(scaled=True): K[i] depends on axis i only, is real, zero at the mean mode, and the wall-parallel wavenumber is nonzero elsewhere',
    'shenfun CachedArrayDict: one uninitialised buffer per (shape, dtype, index), zero-filled iff asked']


def channel(V, solver, dealias='3/2-rule', convection='Vortex', optimization='', rank=0, quad='GC', extra=(), mask=True, tweak=None, loops=None,
            context=True, fakes=None, fix=None):
    wall = WALL[solver]
    U = chan.ChanU(wall, ('z', 'g') if rank == 0 else ('f', 'g'), quad)
    U.nomask = not mask
    U.L = [poly.atom('L%d' % a, 'L%d' % a, positive=True) for a in range(3)]
    F = chan.fakes_channel(U, rank)
    if fakes:
        F.update(fakes)
    if tweak:
        tweak(F)
    Lu = load.Fake('spectralDNS.shen.LUsolve', Mult_CTD_3D_ptr=chan.Mult_CTD(U))
    Lo = load.Loader(F, loops=loops, overrides={'spectralDNS.shen.LUsolve': Lu})
    sd = Lo.load('spectralDNS')
    par = [a for a in range(3) if a != wall]
    for s, lab in zip(U.spec.sites, U.spec.labels):
        if lab != 'z':
            assume(sum((U.wavenumber(a, s, True, False)*U.wavenumber(a, s, True, False) for a in par), Poly({})) != 0)
    args = ['--dealias', dealias, '--convection', convection, '--Dquad', quad, '--Bquad', quad]
    if optimization:
        args += ['--optimization', optimization]
    args += list(extra) + [solver]
    s = sd.get_solver(mesh='channel', parse_args=args)
    S = Setup()
    P = sd.config.params
    dict.__setitem__(P, 'N', list(U.spec.dims))
    dict.__setitem__(P, 'L', list(U.L))
    S.U, S.L, S.sd, S.s, S.params = U, Lo, sd, s, P
    S.round = ''
    coefficients(S, solver)
    if fix:
        fix(S)
    S.nu, S.dt = P['nu'], P['dt']
    S.kappa = dict.get(P, 'kappa')
    S.dim = 3
    S.wall, S.par = wall, par
    S.solver, S.quad, S.rank, S.dealias = solver, quad, rank, dealias
    S.spec = U.spec
    if context:
        make_context(S)
        any_step(S)
    V.files |= Lo.files
    return S


def coefficients(S, solver, which=('nu', 'dt', 'kappa', 'Ra', 'Pr')):
    """Arbitrary positive coefficients; the Richardson-type ones of the solvers that have them."""
    P = S.params
    for nm in which:
        if nm in P or nm in ('nu', 'dt') or (nm == 'kappa' and solver in RB):
            dict.__setitem__(P, nm, poly.atom(nm + S.round, nm + S.round, positive=True))
    S.nu, S.dt, S.kappa = P['nu'], P['dt'], dict.get(P, 'kappa')


def any_step(S):
    """The contracts hold at every step of a run."""
    dict.__setitem__(S.params, 't', poly.atom('any time' + S.round, 't' + S.round))
    dict.__setitem__(S.params, 'tstep', poly.atom('any step' + S.round, 'n' + S.round, kind='int', info=('ge0',)))


def make_context(S):
    S.c = S.s.get_context()
    S.K, S.K2 = wave(S)
    S.K4 = S.K2*S.K2
    S.sp = spaces(S)


def history(S):
    """What happens in the process besides the steps of one problem: nothing (None), or a second problem that differs in a single
    respect (whatever the code keeps and recognises by the others is found out).  Each is a path of its own, so that branches in
    the code multiply less."""
    kinds = (None, 'nu', 'dt') + (('kappa',) if S.solver in RB else ()) + ('domain', 'quadrature')
    return kinds[sym.choose(len(kinds), 'history')]


def other_problem(V, S, what, arm):
    """The second problem of the process, put into an arbitrary state by `arm`; then the first one again."""
    if what is None:
        return
    keep, par, L, conv, quad = dict(S.__dict__), dict(S.params), S.U.L, S.s.__dict__.get('conv'), S.U.quad
    S.round = '~'
    if what == 'domain':
        S.U.gen = 1
        S.U.L = [poly.atom("L%d~" % a, "L%d~" % a, positive=True) for a in range(3)]
        dict.__setitem__(S.params, 'L', list(S.U.L))
        for s, lab in zip(S.U.spec.sites, S.U.spec.labels):
            if lab != 'z':
                assume(sum((S.U.wavenumber(a, s, True, False)*S.U.wavenumber(a, s, True, False) for a in S.par), Poly({})) != 0)
    elif what == 'quadrature':
        S.quad = S.U.quad = 'GL' if quad == 'GC' else 'GC'
        dict.__setitem__(S.params, 'Dquad', S.quad)
        dict.__setitem__(S.params, 'Bquad', S.quad)
    else:
        coefficients(S, S.solver, (what,))
    make_context(S)
    any_step(S)
    arm(S)
    yield 'another %s, ' % what
    S.__dict__.clear()
    S.__dict__.update(keep)
    S.U.gen, S.U.L, S.U.quad = 0, L, quad
    for k, v in par.items():
        dict.__setitem__(S.params, k, v)
    if conv is not None:
        S.s.conv = conv
    yield 'the first problem again, '


def wave(S):
    """Wall-parallel wavenumbers at the generic modes (index 0 and 1 are the wall-parallel directions in order)."""
    g = S.U.spec
    K = {}
    for a in S.par:
        r = SArr.full(g, (), 'float64')
        for p, s in enumerate(g.sites):
            if g.labels[p] != 'z':
                r.val[p] = S.U.wavenumber(a, s, True, False)
        K[a] = r
    K2 = sum((K[a]*K[a] for a in S.par[1:]), K[S.par[0]]*K[S.par[0]])
    return K, K2


class Sp:
    pass


def spaces(S):
    """The spaces as the mathematics has them, independent of the names in the context."""
    U = S.U
    sp = Sp()
    N = U.spec.dims[S.wall]

    def mk(kind, bc):
        b = chan.Basis('C', kind, N, S.quad, bc)
        bs = [chan.Basis('F', 'F', U.spec.dims[a]) for a in range(3)]
        bs[S.wall] = b
        return chan.WTPS(U, None, bs)
    sp.D, sp.B, sp.T = mk('D', (0, 0)), mk('B', (0,)*4), mk('T', None)
    return sp


def M(S, test, dt, trial, du):
    return ('M', (test, S.quad), dt, (trial, S.quad), du)


def op(S, key, a):
    """Apply a wall-normal operator to a column array."""
    r = SArr(_np.empty(a.val.shape, dtype=object), a.grid, a.gax, a.pts, 'complex128')
    for ix in _np.ndindex(a.val.shape):
        r.val[ix] = chan.apply_op(key, a.val[ix])
    return r


def m(S, test, dt, trial, du, a):
    return op(S, M(S, test, dt, trial, du), a)


def imass(S, X, a):
    return op(S, ('I', (X, S.quad)), a)


def ddx(S, X, Y, a):
    """Coefficients in X of the wall-normal derivative of a function of Y."""
    return imass(S, X, m(S, X, 0, Y, 1, a))


def at(a, label):
    """The value(s) at the mode with this label; None if the process has none."""
    if label not in a.grid.labels:
        return None
    p = a.grid.labels.index(label)
    r = SArr(a.val[..., [a.pts.index(p)]].copy(), a.grid, a.gax, (p,), a.dtype)
    return r


def modes(S, nonzero=True):
    return [l for l in S.spec.labels if (l != 'z') == nonzero]


def evaluate(S, space, a, padding, direct):
    """Values at the points of the (possibly padded) mesh."""
    T = space.get_dealiased(padding_factor=padding, dealias_direct=direct)
    out = SArr.full(T.pgrid(), a.comps, 'float64')
    for ix in _np.ndindex(a.comps):
        out.val[ix + (0,)] = T._bwd([a.val[ix + (j,)] for j in range(a.val.shape[-1])], a.sites())
    return out


def forward(S, space, a, padding, direct):
    T = space.get_dealiased(padding_factor=padding, dealias_direct=direct)
    out = SArr.full(S.spec, (), 'complex128')
    t = T._fwd(a.val[0])
    for j in range(len(t)):
        out.val[j] = t[j]
    return out


def pad(dealias):
    return (1.5, False) if dealias == '3/2-rule' else (1, dealias == '2/3-rule')


def same(V, S, name, a, b, labels=None):
    for l in labels or S.spec.labels:
        if l in S.spec.labels:
            V.eq('%s, mode %s' % (name, {'z': 'zero', 'g': 'generic', 'f': 'first of the process'}[l]), at(a, l), at(b, l))
