"""Wall-normal kernels: the compiled code equals its matrix for a symbolic number of points, every axis and every column."""
from vc import poly, load
from vc.poly import Poly
from vc.sym import assume, compare, choose, ContractFailure, Unsupported, BoundsError, PathEnd
from vc.load import Fake
from vc.seq import Seq, CSeq, Ptr, Loop, P, decide, require
from vc.arr import SArr
from .chancommon import channel, m, TRUSTED_CHAN
from .chanstep import clone
import numpy as np

MOD = 'spectralDNS.shen.LUsolve'
META = dict(
    functions=[MOD+'.Mult_CTD_1D_ptr', MOD+'.Mult_CTD_3D_ptr', MOD+'.Mult_Div_1D', MOD+'.Mult_Div_3D',
               'spectralDNS.shen.Matrices.HelmholtzCoeff.__init__', 'spectralDNS.shen.Matrices.HelmholtzCoeff.matvec',
               'spectralDNS.shen.Matrices.BiharmonicCoeff.__init__', 'spectralDNS.shen.Matrices.BiharmonicCoeff.matvec'],
    trusted=['the VC generator vc/, the vector domain vc/seq.py (a vector of symbolic length is a function of its index, a C pointer a strided column) and its '
             'counted-loop rule (invariant at the start, kept by an arbitrary iteration, state after the last one)', 'z3',
             'decython: the line-based reduction of .pyx text to Python',
             'Chebyshev: T_j = (U_j - U_{j-2})/2, so c_{k-1} b_{k-1} = b_{k+1} + 2 k a_k for the coefficients a of u and b of its derivative; (T_j, T_j) = c_j pi/2 with '
             'Gauss points for j below the number of points',
             'shenfun: inner_product of two bases is the matrix of that name; '
             'shenfun Matvec.Helmholtz_matvec / Biharmonic_matvec apply the matrices whose diagonals they are given (compared with dense products in the replay)',
             'floating-point and C int arithmetic treated as exact'],
    assumptions=['at least 4 points (Mult_CTD) or 7 points (Mult_Div), the smallest sizes for which the formulas of the last rows are distinct; no solver accepts fewer; shenfun\'s own Biharmonic_matvec is wrong below 13 points, which is outside this repository',
                 'the arrays of one call do not overlap (they are different components or work arrays at every call site)'],
    bounded='compiled kernels against dense shenfun matrices: all sizes 4..40 (7..40), random complex columns, axes 0..2, guard bands around every array; '
            'the matvec classes against dense matrices for sizes 8..40 (biharmonic from 13), random coefficients, axes and quadratures')

FL = (('v', False), ('w', False), ('u', False))


class Column:
    """Coefficients 0..N-3 of a Dirichlet basis expansion, zero elsewhere, and the ghost sum S(k) = v(k+1) + v(k+3) + ..."""

    def __init__(self, name, N):
        self.name, self.N = name, N
        self.now = None

    def raw(self, k):
        return poly.opaque(self.name+'r', P(k)) + 1j*poly.opaque(self.name+'i', P(k))

    def __call__(self, k):
        k = P(k)
        if decide('<', k, 0) or decide('>=', k, self.N-2):
            return P(0)
        return self.raw(k)

    def S(self, k, unroll=0):
        k = P(k)
        if decide('>=', k, self.N-3):
            return P(0)
        if unroll:
            return self(k+1) + self.S(k+2, unroll-1)
        return poly.opaque(self.name+'Sr', k) + 1j*poly.opaque(self.name+'Si', k)

    def Sat(self, k):
        """S(k), with the definition applied once at the iteration just done."""
        k = P(k)
        return self.S(k, 1 if self.now is not None and P(k-self.now).same(P(0)) else 0)

    def db(self, j, unroll=False):
        """c_j times coefficient j of the derivative."""
        j = P(j)
        return P(-2)*(j+1)*self(j-1) - P(4)*(self.S(j, 1) if unroll else self.Sat(j))


SMALL = 4


def size(n, par):
    """A number of points: n itself, or an arbitrary one of at least n with the given parity."""
    if par is None:
        return P(n)
    h = poly.atom('h', 'h', kind='int', info=('ge0',))
    return P(2)*h + n + (n+par) % 2


def sizes(least):
    for n in range(least, least+SMALL):
        yield 'N = %d' % n, n, None
    for par in (0, 1):
        yield 'every %s N from %d' % (('even', 'odd')[par], least+SMALL), least+SMALL, par


def parity(k):
    """The parity of an integer whose normal form determines it."""
    r = P(k) % 2
    return int(r)


def next_of(par, i):
    """Smallest integer above i of the given parity."""
    i = P(i)
    return i+1 if parity(i+1) == par else i+2


def anyrow(name, lo, hi, special=()):
    """An arbitrary integer in [lo, hi), the special ones as they are."""
    k = choose(len(special)+1, 'which '+name) if special else 0
    if k:
        return P(special[k-1])
    h = poly.atom((name, 'h'), name, kind='int', info=None)
    j = P(2)*h + choose(2, 'parity of '+name)
    require('>=', j, lo)
    require('<', j, hi)
    for x in special:
        require('!=', j, x)
    return j


class NumPy(Fake):
    def __init__(self):
        Fake.__init__(self, 'numpy')
        self.pi = poly.atom('pi', 'pi', positive=True)
        for n in ('complex128', 'float64', 'int64', 'ndarray'):
            setattr(self, n, getattr(np, n))


class CLoop(Loop):
    """Counted loop whose columns apply their definition at the iteration just done."""

    def __init__(self, V, name, state, cols=()):
        Loop.__init__(self, V, name, state)
        self.cols = cols

    def init(self, rng, loc):
        self.loc = loc
        Loop.init(self, rng, loc)

    def var(self, n):
        if n not in self.loc:
            raise Unsupported('loop %s: no variable %s' % (self.name, n))
        return self.loc[n]

    def preserved(self, loc):
        for c in self.cols:
            c.now = self.i
        try:
            Loop.preserved(self, loc)
        finally:
            for c in self.cols:
                c.now = None


def module(V, loops, overrides=None, builtin=None):
    n = NumPy()
    L = load.Loader({'numpy': n}, loops=loops, builtin=builtin,
                    overrides={'spectralDNS': _pkg('spectralDNS'), 'spectralDNS.shen': _pkg('spectralDNS.shen')})
    try:
        p = L.path
        L.path = lambda name: (load.os.path.join(load.REPO, 'spectralDNS/shen/LUsolve.pyx'), False) if name == MOD else p(name)
        m = L.load(MOD)
    finally:
        V.files |= L.files
    return m, n.pi


def _pkg(name):
    m = Fake(name)
    m.__path__ = []
    return m


# --------------------------------------------------------------------------- the derivative projected to the Chebyshev basis
def ctd(V, N):
    cols = [Column('v', N), Column('w', N)]
    loops = {}

    kept = (('bv', cols[0], ('sum_u0', 'sum_u1')), ('bw', cols[1], ('sum_u2', 'sum_u3')))

    def choose_loop(k, stores):
        mine = [x for x in kept if x[0] in stores]
        if len(mine) != len(stores):
            raise Unsupported('a loop that writes %s' % ', '.join(sorted(stores)))

        def state(loop, i):
            names, vecs = {}, {}
            for lab, c, (a, b) in mine:
                names[a] = c.Sat(next_of(0, i))
                names[b] = c.Sat(next_of(1, i))
                vecs[lab] = (out[0 if lab == 'bv' else 1], lambda j, old, c=c: c.db(j) if loop.done(j, i) else old(j), None)
            return names, vecs
        return CLoop(V, 'rows of '+', '.join(x[0] for x in mine), state, [x[1] for x in mine])
    loops[(MOD, 'Mult_CTD_1D_ptr', 'for', '*')] = choose_loop
    m, _ = module(V, loops)
    st = poly.atom('st', 'st', kind='int', info=('ge1',))
    inp = [CSeq(N, lambda k, c=c: c.raw(k)) for c in cols]
    out = [CSeq(N, lambda k, n=n: poly.opaque('old'+n, P(k))) for n in ('bv', 'bw')]
    # the last two entries of the input belong to the boundary values: the operator must not depend on them
    was = [a.fn for a in inp]
    m.Mult_CTD_1D_ptr(N, Ptr(inp[0], st), Ptr(inp[1], st), Ptr(out[0], st), Ptr(out[1], st), st)
    j = anyrow('row', 1, N-3, (0, N-1, N-2, N-3))
    for c, a, o, f, lab in zip(cols, inp, out, was, ('first', 'second')):
        cj = 2 if decide('==', j, 0) else 1
        V.eq('coefficient of the derivative of the %s field' % lab, o.at(j)*cj, c.db(j, unroll=True if cj == 2 else False))
        V.eq('the %s field is left as it was' % lab, a.at(j), f(j))


def derivative_lemma(V, N):
    """c_{k-1} b_{k-1} = b_{k+1} + 2 k a_k determines b, and the formula of Column.db satisfies it."""
    c = Column('v', N)
    j = anyrow('j', 0, N)
    k = j+1
    a = c(k) - c(k-2)
    V.eq('the recurrence of the derivative coefficients', c.db(j, unroll=True), (c.db(j+2) if not decide('>=', j+2, N) else P(0)) + P(2)*k*a)


# --------------------------------------------------------------------------- arbitrary columns of three-dimensional arrays
class Arr3:
    """C-contiguous local array; only element addresses and columns can be taken."""
    vc_array = True
    ndim = 3
    dtype = np.dtype(complex)

    def __init__(self, name, shape, size_=16):
        self.name, self.shape = name, tuple(shape)
        self.itemsize = size_
        s = [P(size_), P(size_), P(size_)]
        s[1] = s[2]*self.shape[2]
        s[0] = s[1]*self.shape[1]
        self.strides = tuple(s)

    def _check(self, ix):
        for k, n in zip(ix, self.shape):
            if not (decide('>=', P(k), 0) and decide('<', P(k), P(n))):
                raise BoundsError('index %s of %s outside [0, %s)' % (poly.show(P(k)), self.name, poly.show(P(n))))

    def addr(self, ix):
        if len(ix) != 3:
            raise ContractFailure('address of something that is not an element')
        self._check(ix)
        return ('element', self, tuple(P(k) for k in ix))

    def __getitem__(self, ix):
        if len(ix) == 3 and [isinstance(k, slice) for k in ix].count(True) == 1:
            full = [k for k in ix if isinstance(k, slice)][0]
            if full != slice(None):
                raise Unsupported('part of a column')
            return ('column', self, tuple(None if isinstance(k, slice) else P(k) for k in ix))
        raise Unsupported('element access')


class Arr2:
    vc_array = True
    ndim = 2
    dtype = np.dtype(float)

    def __init__(self, name, shape):
        self.name, self.shape = name, tuple(shape)

    def __getitem__(self, ix):
        return poly.opaque(self.name, P(ix[0]), P(ix[1]))


class Ranges:
    """Loops over a whole symbolic range: one arbitrary iteration stands for all, each writing to its own column."""

    def __init__(self):
        self.live = []

    def __call__(self, *a):
        if not any(isinstance(x, Poly) for x in a):
            return range(*a)
        lo, hi = (0, a[0]) if len(a) == 1 else a[:2]
        if len(a) == 3 and a[2] != 1:
            raise Unsupported('step of a loop over columns')
        return self.run(P(lo), P(hi))

    def run(self, lo, hi):
        k = poly.atom(('col', len(self.live), len(self.live) and self.live[0][0]), 'k%d' % len(self.live), kind='int', info=None)
        require('>=', k, lo)
        require('<', k, hi)
        self.live.append((k, lo, hi))
        yield k
        self.live.pop()


def columns(V, axis):
    sh = [poly.atom('n%d' % a, 'n%d' % a, kind='int', info=('ge1',)) for a in range(3)]
    N = sh[axis]
    R = Ranges()
    m, _ = module(V, {}, builtin=dict(range=R, xrange=R))
    A = [Arr3(n, sh) for n in ('v_hat', 'w_hat', 'bv', 'bw')]
    calls = []

    def kernel(n, *a):
        calls.append((list(R.live), n, a))
    m.Mult_CTD_1D_ptr = kernel
    m.Mult_CTD_3D_ptr(N, *A, axis)
    V.true('one call per column', len(calls) == 1)
    live, n, a = calls[0]
    V.true('two nested loops', len(live) == 2)
    V.eq('the number of points is passed on', n, N)
    V.true('the arrays are passed in order', [x[0] == 'element' and x[1] is y for x, y in zip(a[:4], A)] == [True]*4)
    V.eq('the stride is that of the wall-normal axis', a[4], A[0].strides[axis]*P(1)/P(16))
    cross(V, live, [x[2] for x in a[:4]], axis, sh, P(0))


def cross(V, live, ixs, axis, sh, first):
    others = [d for d in range(3) if d != axis]
    for ix in ixs:
        if first is not None:
            V.eq('the column starts at its first point', ix[axis], first)
        for d in others:
            own = [l for l in live if ix[d].same(l[0])]
            V.true('each remaining direction has its own loop', len(own) == 1 and not ix[others[0]].same(ix[others[1]]))
            V.eq('the loop starts at the first column', own[0][1], 0)
            V.eq('the loop ends after the last column', own[0][2], sh[d])


def columns_div(V):
    sh = [poly.atom('n%d' % a, 'n%d' % a, kind='int', info=('ge1',)) for a in range(3)]
    N = poly.atom('N', 'N', kind='int', info=('ge1',))
    R = Ranges()
    m, _ = module(V, {}, builtin=dict(range=R, xrange=R))
    A = [Arr3(n, sh) for n in ('u_hat', 'v_hat', 'w_hat', 'b')]
    mm, nn = Arr2('m', sh[1:]), Arr2('n', sh[1:])
    calls = []
    m.Mult_Div_1D = lambda *a: calls.append((list(R.live), a))
    m.Mult_Div_3D(N, mm, nn, *A)
    V.true('one call per column', len(calls) == 1)
    live, a = calls[0]
    V.true('two nested loops', len(live) == 2)
    V.eq('the number of points is passed on', a[0], N)
    V.true('the arrays are passed in order', [x[0] == 'column' and x[1] is y for x, y in zip(a[3:], A)] == [True]*4)
    ix = a[3][2]
    V.eq('first wavenumber of the column', a[1], mm[ix[1], ix[2]])
    V.eq('second wavenumber of the column', a[2], nn[ix[1], ix[2]])
    V.true('whole wall-normal columns', all(x[2][0] is None for x in a[3:]))
    cross(V, live, [x[2] for x in a[3:]], 0, sh, None)


# --------------------------------------------------------------------------- the divergence tested with the Neumann basis
def div(V, N):
    M = N-3
    cols = {n: Column(n, N) for n in 'uvw'}
    loops = {}
    fn = 'Mult_Div_1D'

    def alpha(k):
        q = P(k)*(P(k)+2).inv()
        return q*q

    pi = lambda: poly.atom('pi', 'pi', positive=True)
    half = P(1)/P(2)
    fills = dict(bii=lambda j: half*pi()*(1+alpha(j+1)),
                 bp2=lambda j: P(-1)*half*pi()*alpha(j+1),
                 bm2=lambda j: P(-1)*half*pi() if decide('>=', j, 1) else None,       # entry 0 belongs to no row
                 cm1=lambda j: P(-1)*(j+2)*pi(),
                 cp1=lambda j: P(-1)*pi()*(P(2)-alpha(j+1)*(j+4)),
                 cp3=lambda j: P(-2)*pi()*(P(1)-alpha(j+1)))

    def fill(stores):
        """A loop that fills coefficient vectors, whichever and in whatever arrangement."""
        def state(loop, i):
            vecs = {}
            for name, how in stores.items():
                vec, val = loop.var(name), fills[name]
                if how == 'push':
                    if loop.st != 1:
                        raise Unsupported('appending in a loop that runs down')
                    n0 = loop.length.setdefault(name, P(vec.n))
                    f = lambda j, old, n0=n0, val=val, i=i: val(j) if decide('>=', j, n0) and decide('<', j, n0+i-loop.lo) else old(j)
                    n = lambda i, n0=n0: n0+P(i)-loop.lo
                elif how is None:
                    raise Unsupported('index of a coefficient vector')
                else:
                    f = lambda j, old, how=how, val=val, i=i: val(j) if loop.done(j-how, i) else old(j)
                    n = None
                vecs[name] = (vec, f, n)
            return {}, vecs
        r = CLoop(V, 'fill '+', '.join(sorted(stores)), state)
        r.length = {}
        return r

    def choose_loop(k, stores):
        if stores and all(n in fills for n in stores):
            return fill(stores)
        if 'b' in stores and not any(n in fills for n in stores):
            return main
        raise Unsupported('a loop that writes %s' % ', '.join(sorted(stores)))
    loops[(MOD, fn, 'for', '*')] = choose_loop
    u, v, w = (cols[n] for n in 'uvw')
    mw, nw = poly.atom('m', 'm'), poly.atom('n', 'n')

    def row(i, unroll):
        k = P(i)+1
        al = alpha(k)
        S2 = u.S(k+2, 1) if unroll else u.Sat(k+2)
        bk = P(-2)*(k+1)*u(k-1) - P(4)*(u(k+1) + S2)
        bk2 = P(-2)*(k+3)*u(k+1) - P(4)*S2
        r = half*pi()*(bk - al*bk2)
        for c, x in ((mw, v), (nw, w)):
            r = r + 1j*half*pi()*c*((x(k)-x(k-2)) - al*(x(k+2)-x(k)))
        return r

    def rows(loop, i):
        names = {'sum_u0': u.Sat(next_of(0, i)+3), 'sum_u1': u.Sat(next_of(1, i)+3)}
        return names, {'b': (b, lambda j, old: row(j, False) if loop.done(j, i) else old(j), None)}
    main = CLoop(V, 'rows', rows, [u])
    pres = Loop.preserved

    def preserved(loc):
        u.now = main.i+3
        try:
            pres(main, loc)
        finally:
            u.now = None
    main.preserved = preserved
    m, _ = module(V, loops)
    inp = {n: CSeq(N-2, lambda k, c=c: c.raw(k)) for n, c in cols.items()}
    b = CSeq(N-3, lambda k: poly.opaque('oldb', P(k)))
    m.Mult_Div_1D(N, mw, nw, inp['u'], inp['v'], inp['w'], b)
    i = anyrow('row', 1, M-3, (0, M-1, M-2, M-3))
    V.eq('row of the divergence tested with the Neumann basis', b.at(i), row(i, decide('==', i, 0)))
    for n, c in cols.items():
        V.eq('%s is left as it was' % n, inp[n].at(i), c.raw(i))


# --------------------------------------------------------------------------- application of the Helmholtz and biharmonic operators
def coefficient(S, name):
    """An arbitrary real coefficient per wall-parallel mode."""
    r = SArr(S.c.K2.val.copy(), S.c.K2.grid, S.c.K2.gax, S.c.K2.pts, 'float64')
    for ix in np.ndindex(r.val.shape):
        r.val[ix] = poly.atom((name,)+ix, '%s%s' % (name, ix[-1]))
    return r


def matvec(V, solver, quad, scalar):
    S = channel(V, solver, quad=quad, mask=False)
    M = S.L.load('spectralDNS.shen.Matrices')
    N, ax = S.spec.dims[S.wall], S.wall
    al, be = coefficient(S, 'alfa'), coefficient(S, 'beta')
    a1 = poly.atom('a1', 'a1')
    v, c = clone(S.c.U_hat[0]), clone(S.c.U_hat[1])
    v.val[...] = SArr.named('v', S.spec, (), 'complex128').val
    c.val[...] = SArr.named('junk', S.spec, (), 'complex128').val
    before = clone(v)
    H = M.HelmholtzCoeff(N, a1 if scalar else al, be, ax, quad)
    r = H.matvec(v, c)
    want = m(S, 'D', 0, 'D', 2, v)*(a1 if scalar else al) + m(S, 'D', 0, 'D', 0, v)*be
    V.eq('Helmholtz: alfa A v + beta B v', c, want)
    V.true('Helmholtz: the result array is returned', r is c)
    V.eq('Helmholtz: the input is left as it was', v, before)
    d = clone(c)
    a0 = poly.atom('a0', 'a0')
    B = M.BiharmonicCoeff(N, a0, al, be, ax, quad)
    r = B.matvec(v, d)
    V.eq('biharmonic: a0 S v + alfa A v + beta B v', d, m(S, 'B', 0, 'B', 4, v)*a0 + m(S, 'B', 0, 'B', 2, v)*al + m(S, 'B', 0, 'B', 0, v)*be)
    V.true('biharmonic: the result array is returned', r is d)
    V.eq('biharmonic: the input is left as it was', v, before)
    V.eq('Helmholtz: the first result is left as it was', c, want)


def prove(V):
    for name, n, par in sizes(4):
        V.case('the derivative formula solves the Chebyshev recurrence, ' + name, lambda: derivative_lemma(V, size(n, par)))
        V.case('Mult_CTD_1D_ptr, ' + name, lambda: ctd(V, size(n, par)))
    for axis in range(3):
        V.case('Mult_CTD_3D_ptr, axis %d' % axis, lambda: columns(V, axis))
    V.case('Mult_Div_3D', lambda: columns_div(V))
    for solver in ('KMM', 'KMMr'):
        for quad in ('GC', 'GL'):
            for scalar in (True, False):
                V.case('matvec, wall-normal axis of %s, %s, %s' % (solver, quad, 'scalar' if scalar else 'array'), lambda: matvec(V, solver, quad, scalar))
    for name, n, par in sizes(7):
        V.case('Mult_Div_1D, ' + name, lambda: div(V, size(n, par)))
