"""Contracts for the wall-bounded spaces and matrices of shenfun (assumed; listed in the evidence).

A spectral value at a wall-parallel mode is a *column*: the vector of its wall-normal coefficients, one indeterminate.
Matrices act on columns as uninterpreted complex-linear maps M[test,dt;trial,du]; a mass matrix and its solver cancel.
`backward` evaluates derivative number d of a function of space Y: B_X(I_X M[X,0;Y,d] v) = E[Y,d] v whenever the
derivative of Y lies in X, so every route to the same derivative gives the same value.
"""
import numbers
from fractions import Fraction
import numpy as _np
from . import poly, sym, arr, shen
from .poly import Poly, ATOMS
from .sym import Unsupported, ContractFailure
from .arr import SArr, Grid, NP, FULL
from .load import Fake, _Missing
from .shen import TPS, FunArr, Universe

# D^d Y is a subset of X (B: four homogeneous conditions, D: two, R: two inhomogeneous, T: none)
CONTAINS = {('D', 'B', 1), ('T', 'B', 1), ('T', 'D', 1), ('T', 'D', 0), ('T', 'B', 0), ('D', 'B', 0), ('T', 'T', 1), ('T', 'T', 0),
            ('D', 'D', 0), ('B', 'B', 0), ('T', 'D', 2), ('T', 'B', 2), ('T', 'T', 2)}


def is_scalar(a):
    return a.site is None or not a.col


def split_col(m):
    """monomial -> (scalar part, column atom id)"""
    s, c = [], []
    for a, e in m:
        (s if is_scalar(ATOMS[a]) else c).append((a, e))
    if len(c) != 1 or c[0][1] != 1:
        raise Unsupported('a product of columns (or a constant) under a wall-normal operator: %s' % shen.mono_name(m))
    return tuple(s), c[0][0]


def W(word, base):
    """The column `word` applied to the column atom `base`."""
    if not word:
        return ONEATOM(base)
    a = ATOMS[base]
    nm = '.'.join(opname(o) for o in word) + '.' + a.name
    p = poly.atom(('W', word, base), nm, complex=True, site=a.site)
    WORD[next(iter(p.t))[0][0]] = (word, base)
    return p


WORD = {}
ELEM = {}          # atom id of a unit column -> index
HOMOG = set()      # columns without boundary coefficients


def ONEATOM(i):
    return Poly({((i, 1),): poly.ONE})


def opname(o):
    if o[0] == 'M':
        return 'M[%s%d,%s%d]' % (o[1][0], o[2], o[3][0], o[4])
    return '%s[%s]' % (o[0], o[1][0])


def unit(i, site):
    p = poly.atom(('unit', i, site), 'e%d' % i, site=site)
    ELEM[next(iter(p.t))[0][0]] = i
    return p


def elem(i, p):
    """Entry number i of a column (linear)."""
    out = Poly({})
    for m, c in p.t.items():
        s, a = split_col(m)
        if a in ELEM:
            if ELEM[a] == i:
                out = out + Poly({s: c})
            continue               # another entry (the extent is assumed large enough)
        if i < 0 and (a in HOMOG or a in WORD):
            continue
        out = out + Poly({s: c})*poly.atom(('el', i, a), '%s[%d]' % (ATOMS[a].name, i), complex=True, site=ATOMS[a].site, col=False)
    return out


def setelem(i, p, new, site):
    return p + unit(i, site)*(Poly.of(new) - elem(i, p))


def diag_entry(key, d, i):
    return poly.atom(('diag', key, d, i), '%s.diag(%d)[%s]' % (opname(key), d, i), positive=True)


def apply_op(op, p):
    out = Poly({})
    for m, c in p.t.items():
        s, a = split_col(m)
        f = Poly({s: c})
        word, base = WORD.get(a, ((), a))
        if op[0] == 'I' and word and word[0][0] == 'M' and word[0] == ('M', op[1], 0, op[1], 0):
            out = out + f*W(word[1:], base)
        elif op[0] == 'M' and op[2] == op[4] == 0 and op[1] == op[3] and word and word[0] == ('I', op[1]):
            out = out + f*W(word[1:], base)
        elif op[0] == 'M' and ELEM.get(a, 0) < 0 and op[3][0] in 'DB':
            pass               # the matrices act on the homogeneous part
        elif op[0] == 'I' and op[1][0] == 'T' and a in ELEM:
            # the Chebyshev mass matrix is diagonal
            out = out + f*ONEATOM(a)/diag_entry(('M', op[1], 0, op[1], 0), 0, ELEM[a])
        else:
            out = out + f*W((op,) + word, base)
    return out


def columns(a, what):
    if not isinstance(a, SArr):
        raise ContractFailure('%s is not an array' % what)
    if a.comps:
        raise Unsupported('%s has components' % what)
    if a.grid.kind != 'spec' or a.grid.wall is None:
        raise ContractFailure('%s does not hold wall-normal coefficients (grid %s)' % (what, a.grid.name))


def wall_axis(a, axis, what):
    for j, (ax, f) in enumerate(a.gax):
        if ax == a.grid.wall:
            if not f:
                raise ContractFailure('%s has extent 1 along the wall-normal axis' % what)
            if axis % len(a.gax) != j:
                raise ContractFailure('%s: operator applied along axis %d, the wall-normal axis is %d' % (what, axis, j))
            return
    raise ContractFailure('%s has no wall-normal axis' % what)


def scale_at(x, p, what='scale'):
    """Value of a scale array at generic point number p (it must not vary along the wall-normal axis)."""
    if isinstance(x, SArr):
        if x.comps:
            raise ContractFailure('%s has components' % what)
        if any(ax == x.grid.wall and f for ax, f in x.gax):
            raise ContractFailure('%s varies along the wall-normal axis' % what)
        return x.val[x.pts.index(p)]
    if isinstance(x, _np.ndarray):
        if x.size != 1:
            raise Unsupported('%s of shape %r' % (what, x.shape))
        return Poly.of(x.reshape(-1)[0])
    return Poly.of(x)


class Basis:
    """One-dimensional function space."""

    def __init__(self, fam, kind, N, quad=None, bc=None, **kw):
        self.fam, self.kind, self.N, self.quad, self.bc, self.kw = fam, kind, N, quad, bc, kw
        self.T = None
        self.padding, self.direct = 1, False

    def get_dealiased(self, padding_factor=1.5, dealias_direct=False):
        r = Basis(self.fam, self.kind, self.N, self.quad, self.bc, **self.kw)
        r.T, r.padding, r.direct = self.T, padding_factor, bool(dealias_direct)
        return r

    @property
    def key(self):
        return ('D' if self.kind == 'R' else self.kind, self.quad)

    def family(self):
        return {'F': 'fourier', 'C': 'chebyshev'}[self.fam]


class Mat:
    def __init__(self, test, dt, trial, du):
        if test.quad != trial.quad:
            raise ContractFailure('inner product of spaces with different quadratures (%s, %s)' % (test.quad, trial.quad))
        if not test.N == trial.N:
            raise ContractFailure('inner product of spaces of different sizes')
        self.key = ('M', test.key, dt, trial.key, du)
        self.test, self.trial = test, trial
        self.mass = dt == du == 0 and test.key == trial.key
        self.d = {}

    def op(self, v):
        return apply_op(self.key, v)

    def matvec(self, v, c, format=None, axis=0):
        columns(v, 'matvec input')
        columns(c, 'matvec output')
        wall_axis(v, axis, 'matvec input')
        wall_axis(c, axis, 'matvec output')
        if c.dtype.kind != 'c':
            raise ContractFailure('matvec output must be complex')
        if c.val is v.val or _np.shares_memory(v.val, c.val):
            raise ContractFailure('matvec input and output share memory')
        if tuple(v.pts) != tuple(c.pts) or v.gax != c.gax:
            raise ContractFailure('matvec input and output have different shapes')
        for j in range(len(v.pts)):
            c.val[j] = self.op(v.val[j])
        return c

    def __getitem__(self, d):
        return self.d[d] if d in self.d else Diag(self.key, d)

    def __setitem__(self, d, x):
        raise Unsupported('a matrix is modified')

    def solve(self, b, u=None, axis=0, constraints=()):
        return TDMA(self)(b, u, axis, constraints)

    def get_key(self):
        return self.key


class Diag:
    def __init__(self, key, d):
        self.key, self.d, self.f = key, d, 1

    def __getitem__(self, i):
        if not isinstance(i, numbers.Integral):
            raise Unsupported('diagonal slice')
        return diag_entry(self.key, self.d, int(i))*self.f

    def scaled(self, f):
        r = Diag(self.key, self.d)
        r.f = self.f*f
        return r

    def __mul__(self, f):
        if not isinstance(f, (numbers.Number, Poly)):
            raise Unsupported('arithmetic with a matrix diagonal')
        return self.scaled(f)

    __rmul__ = __mul__

    def __truediv__(self, f):
        return self*(Fraction(1, f) if isinstance(f, int) else 1/f)

    def __neg__(self):
        return self.scaled(-1)


def inner_product(test, trial, **kw):
    if kw:
        raise Unsupported('inner_product keywords')
    (a, da), (b, db) = test, trial
    if not isinstance(a, Basis) or not isinstance(b, Basis) or a.fam != 'C' or b.fam != 'C':
        raise Unsupported('inner_product of these spaces')
    return Mat(a, int(da), b, int(db))


class TDMA:
    def __init__(self, mat):
        if not isinstance(mat, Mat) or not mat.mass:
            raise Unsupported('solver of a matrix that is not a mass matrix')
        self.mat = mat

    def __call__(self, b, u=None, axis=0, constraints=()):
        if constraints:
            raise Unsupported('constraints')
        columns(b, 'mass-matrix right-hand side')
        wall_axis(b, axis, 'mass-matrix right-hand side')
        if u is None:
            u = b
        else:
            columns(u, 'mass-matrix solution')
            if tuple(u.pts) != tuple(b.pts) or u.gax != b.gax:
                raise ContractFailure('solution and right-hand side have different shapes')
        r = [apply_op(('I', self.mat.key[1]), p) for p in b.val]
        u.val[...] = r
        return u
    solve = __call__


class Solver:
    """Direct solver of (sum of scaled matrices) x = b, one system per wall-parallel mode. The solution is a fresh column
    per (operator, right-hand side); the equation it satisfies is recorded."""
    LOG = {}

    def __init__(self, mats, scales):
        self.mats, self.scales = mats, scales
        t = [m.test.T for m in mats]
        if any((x is None) != (t[0] is None) for x in t):
            raise ContractFailure('matrices of one- and three-dimensional problems mixed')
        self.ndim = 1 if t[0] is None else 3
        if len({m.test.key for m in mats} | {m.trial.key for m in mats}) != 1:
            raise ContractFailure('matrices of different spaces in one system')

    def __call__(self, b, u=None, constraints=()):
        if constraints:
            raise Unsupported('constraints')
        if u is None:
            raise Unsupported('no solution array')
        for x, n in ((b, 'right-hand side'), (u, 'solution')):
            columns(x, n)
            if x.ndim != self.ndim:
                raise ContractFailure('%s of rank %d given to a solver of a %d-dimensional problem' % (n, x.ndim, self.ndim))
        if u is not b and _np.shares_memory(u.val, b.val):
            raise ContractFailure('right-hand side and solution share memory')
        if u.gax != b.gax or u.pts != b.pts:
            raise ContractFailure('right-hand side and solution have different shapes')
        out = []
        for j, p in enumerate(b.pts):
            sc = [scale_at(s, p, 'solver scale') for s in self.scales]
            if not b.val[j].t:
                out.append(Poly({}))        # the systems are uniquely solvable
                continue
            key = ('sol', tuple((m.key, frozenset(s.t.items())) for m, s in zip(self.mats, sc)), frozenset(b.val[j].t.items()), b.grid.sites[p])
            x = poly.atom(key, 'sol%d@%s' % (len(Solver.LOG), b.grid.labels[p]), complex=True, site=b.grid.sites[p])
            Solver.LOG[next(iter(x.t))[0][0]] = (list(zip(self.mats, sc)), b.val[j])
            out.append(x)
        for j, x in enumerate(out):
            for y in x.t:
                HOMOG.add(y[0][0])
            if self.mats[0].trial.kind == 'R':
                s = u.grid.sites[u.pts[j]]
                x = x + unit(-2, s)*elem(-2, u.val[j]) + unit(-1, s)*elem(-1, u.val[j])
            u.val[j] = x
        return u


def residual(x):
    """operator(x) - right-hand side of the system that produced the column x; None if x is not the solution of a system."""
    if len(x.t) != 1:
        return None
    (m, c), = x.t.items()
    if c != poly.ONE or len(m) != 1 or m[0][1] != 1 or m[0][0] not in Solver.LOG:
        return None
    terms, b = Solver.LOG[m[0][0]]
    return sum((s*mt.op(x) for mt, s in terms), Poly({})) - b


def Helmholtz(*args):
    if len(args) != 4:
        raise Unsupported('Helmholtz with %d arguments' % len(args))
    A, B = args[:2]
    if A.key[4] < B.key[4]:
        A, B = B, A           # recognised by kind, the scales are positional
    if A.key[2] or B.key[2] or A.key[4] != 2 or B.key[4] != 0:
        raise ContractFailure('Helmholtz needs one stiffness and one mass matrix')
    return Solver([A, B], list(args[2:]))


def Biharmonic(*args):
    if len(args) != 6:
        raise Unsupported('Biharmonic with %d arguments' % len(args))
    mats = sorted(args[:3], key=lambda m: -m.key[4])
    if [m.key[4] for m in mats] != [4, 2, 0] or any(m.key[2] for m in mats):
        raise ContractFailure('Biharmonic needs the fourth-, second- and zeroth-order matrices')
    return Solver(mats, list(args[3:]))


def ShenDirichlet(N, quad='GC', bc=(0, 0), **kw):
    return Basis('C', 'D', N, quad, bc)


def ShenBiharmonic(N, quad='GC', bc=(0, 0, 0, 0), **kw):
    return Basis('C', 'B', N, quad, bc)


def _combine(v, c, axis, terms):
    columns(v, 'operator input')
    columns(c, 'operator output')
    wall_axis(v, axis, 'operator input')
    wall_axis(c, axis, 'operator output')
    if _np.shares_memory(v.val, c.val):
        raise ContractFailure('operator input and output share memory')
    if c.dtype.kind != 'c':
        raise ContractFailure('operator output must be complex')
    for j, p in enumerate(v.pts):
        c.val[j] = sum((scale_at(s, p)*apply_op(k, v.val[j]) for k, s in terms), Poly({}))


def Helmholtz_matvec(v, c, alfa, beta, A, B, axis):
    if A.key[4] != 2 or B.key[4] != 0 or A.key[1] != B.key[1] or A.key[2] or B.key[2] or A.key[1] != A.key[3]:
        raise ContractFailure('Helmholtz_matvec takes the stiffness matrix and the mass matrix of one space')
    for x, n in ((alfa, 'alfa'), (beta, 'beta')):
        if not isinstance(x, (SArr, _np.ndarray)) or x.ndim != v.ndim:
            raise ContractFailure('Helmholtz_matvec: %s must be an array of rank %d' % (n, v.ndim))
    _combine(v, c, axis, [(A.key, alfa), (B.key, beta)])


def Biharmonic_matvec(v, c, a0, alfa, beta, S0, S2, S4, A_2, A0, A2, B_4, B_2, B0, B2, B4, axis):
    want = [(S0, 4, 0), (S2, 4, 2), (S4, 4, 4), (A_2, 2, -2), (A0, 2, 0), (A2, 2, 2), (B_4, 0, -4), (B_2, 0, -2), (B0, 0, 0), (B2, 0, 2), (B4, 0, 4)]
    keys = {}
    for dg, du, d in want:
        if not isinstance(dg, Diag) or dg.d != d or dg.key[4] != du or dg.key[2] != 0 or dg.key[1] != dg.key[3]:
            raise ContractFailure('Biharmonic_matvec: wrong diagonal')
        keys.setdefault(du, set()).add(dg.key)
    if any(len(k) != 1 for k in keys.values()) or len({next(iter(k))[1] for k in keys.values()}) != 1:
        raise ContractFailure('Biharmonic_matvec: diagonals of different matrices')
    for x, n in ((alfa, 'alfa'), (beta, 'beta')):
        if not isinstance(x, SArr) or x.ndim != v.ndim:
            raise ContractFailure('Biharmonic_matvec: %s must be an array of rank %d' % (n, v.ndim))
    k = {d: next(iter(s)) for d, s in keys.items()}
    _combine(v, c, axis, [(k[4], a0), (k[2], alfa), (k[0], beta)])


# ------------------------------------------------------------------------------------------------ spaces
class ChanU(Universe):
    def __init__(self, wall=0, labels=('z', 'g'), quad='GC'):
        Universe.__init__(self, 3, labels, wall=wall)
        self.spec.lines = Lines
        self.log = []          # spaces created, for the checks of the context
        self.quad = quad

    def pgrid(self, padding, quad='GC'):
        key = (str(padding), quad)
        if key not in self.phys:
            self.phys[key] = Grid('x%s%s' % ('' if float(padding) == 1 else padding, '' if quad == 'GC' else quad), 'phys', self.dim, ['p'], wall=self.wall)
        return self.phys[key]


class Lines:
    """Element access along the wall-normal axis."""
    @staticmethod
    def get(a, i):
        return [elem(i, p) for p in a.val.reshape(-1)]

    @staticmethod
    def set(a, i, new):
        for ix in _np.ndindex(a.val.shape):
            a.val[ix] = setelem(i, a.val[ix], new[ix], a.grid.sites[a.pts[ix[-1]]])


class Transform:
    """Bound transform; its pencils are the data distribution (one process: no content)."""

    def __init__(self, f, space):
        self.f, self.output_pencil, self.input_pencil = f, ('pencil', space), ('pencil', space)

    def __call__(self, *a, **k):
        return self.f(*a, **k)


class WTPS(TPS):
    def __init__(self, U, comm, bases, **kw):
        padding = bases[0].padding
        direct = bases[U.wall - 1].direct
        if any(b.padding != padding for b in bases) or any(b.direct != direct for i, b in enumerate(bases) if i != U.wall):
            raise Unsupported('different dealiasing per direction')
        w = [i for i, b in enumerate(bases) if b.fam == 'C']
        if w != [U.wall]:
            raise ContractFailure('the wall-normal space is on axis %r' % (w,))
        self.wb = bases[U.wall]
        if self.wb.T is None:
            self.wb.T = self
        TPS.__init__(self, U, comm, bases, padding=padding, direct=direct, name=self.wb.kind)
        self.kw = kw

    @property
    def key(self):
        return (self.wb.kind, self.wb.quad) + self.ev()

    def ev(self):
        return (float(self.padding), bool(self.direct), bool(self.wb.direct))

    def pgrid(self):
        return self.U.pgrid(self.padding, self.wb.quad)

    def get_dealiased(self, padding_factor=1.5, dealias_direct=False):
        if padding_factor == 1 and not dealias_direct:
            return self
        return shen.same_domain(self, WTPS(self.U, self.comm, [b.get_dealiased(padding_factor, dealias_direct) for b in self.bases], **self.kw))

    def mesh(self):
        return self.local_mesh()

    @property
    def forward(self):
        return Transform(lambda *a, **k: TPS.forward(self, *a, **k), self)

    @property
    def backward(self):
        return Transform(lambda *a, **k: TPS.backward(self, *a, **k), self)

    def _bwd(self, v, sites):
        ps = self.pgrid().sites[0]
        kind, quad = self.wb.kind, self.wb.quad
        ev = (quad,) + self.ev()
        tot = Poly({})
        if kind == 'R':
            return self._bwd_lift(v, sites)
        for p, s in zip(v, sites):
            for m, c in p.t.items():
                # scalars that do not depend on the mode come out of the (real-linear) transform
                out, inn = [], []
                col = None
                for a, e in m:
                    A = ATOMS[a]
                    if A.site is None:
                        if A.kind == 'complex':
                            raise Unsupported('complex scalar inside a transform')
                        out.append((a, e))
                    elif A.site != s:
                        raise Unsupported('value %s of another grid inside a transform' % A.name)
                    elif is_scalar(A):
                        inn.append((a, e))
                    elif col is None and e == 1:
                        col = a
                    else:
                        raise Unsupported('a product of columns inside a transform')
                if col is None:
                    raise Unsupported('a constant column inside a transform')
                word, base = WORD.get(col, ((), col))
                Y, d, b = kind, 0, col
                if len(word) >= 2 and word[0][0] == 'I' and word[1][0] == 'M' and word[0][1] == word[1][1] and word[1][2] == 0 \
                        and word[0][1] == (kind, quad) and word[1][3][1] == quad and (kind, word[1][3][0], word[1][4]) in CONTAINS:
                    Y, d = word[1][3][0], word[1][4]
                    b = next(iter(W(word[2:], base).t))[0][0]
                for k, i in ((0, False), (1, True)):
                    if c[k]:
                        at = poly.atom(('E', ev, Y, d, s, tuple(inn), i, b),
                                       'E[%s%s%s|%s]' % (Y, "'"*d, self.opname()[len(self.name):] + (',0' if s.endswith(':z') else ''),
                                                         shen.mono_name(tuple(inn) + ((b, 1),), i)), site=ps)
                        tot = tot + Poly({tuple(out): (c[k], poly.ZERO[0])})*at
        return tot

    def _bwd_lift(self, v, sites):
        """Inhomogeneous Dirichlet space: homogeneous part plus the linear lift of the two boundary coefficients
        (which a truncation of the wall-normal direction removes)."""
        def sub(kind):
            b = Basis('C', kind, self.wb.N, self.wb.quad, (0, 0) if kind == 'D' else None)
            b.padding, b.direct, b.T = self.wb.padding, self.wb.direct, self.wb.T
            bs = list(self.bases)
            bs[self.U.wall] = b
            return WTPS(self.U, self.comm, bs)
        hom, lift = [], []
        for p, s in zip(v, sites):
            h, l = Poly({}), Poly({})
            for m, c in p.t.items():
                sc, a = split_col(m)
                if ELEM.get(a) in (-1, -2):
                    l = l + Poly({sc: c})*(unit(0, s) + unit(1, s)*(1 if ELEM[a] == -1 else -1))*Fraction(1, 2)
                else:
                    h = h + Poly({m: c})
            hom.append(h)
            lift.append(l if not self.wb.direct else Poly({}))
        return sub('D')._bwd(hom, sites) + sub('T')._bwd(lift, sites)

    def _fwd(self, p):
        if not p.is_real():
            raise ContractFailure('forward transform of a complex field')
        key = self.key
        ps = self.pgrid().sites
        out = []
        for s in self.U.spec.sites:
            t = Poly({})
            for m, c in p.t.items():
                sc, g = shen.scalar_split(m, ps)
                if c[1]:
                    raise Unsupported('complex coefficient in a real field')
                t = t + Poly({sc: c})*poly.atom(('F', key, s, g), 'F[%s|%s]@%s' % (self.opname(), shen.mono_name(g), s[-1]), complex=True, site=s)
            out.append(t)
        return out

    def local_wavenumbers(self, broadcast=False, scaled=False, eliminate_highest_freq=False):
        out = TPS.local_wavenumbers(self, broadcast, scaled, eliminate_highest_freq)
        return out


class MixTPS(TPS):
    """Vector or composite of scalar spaces (one level)."""

    def __init__(self, spaces):
        flat = []
        self.parts = []
        for s in spaces:
            if isinstance(s, MixTPS):
                self.parts.append((s, slice(len(flat), len(flat) + len(s.spaces))))
                flat += s.spaces
            else:
                self.parts.append((s, len(flat)))
                flat.append(s)
        self.nested = any(isinstance(s, MixTPS) for s in spaces)
        self.spaces = flat
        T = flat[0]
        self.U, self.comm, self.bases, self.padding, self.direct, self.name = T.U, T.comm, T.bases, T.padding, T.direct, 'V'
        self.ncomp = (len(flat),)
        self.gen = T.gen
        self.rank = 1
        self.dimensions = T.dimensions
        self.dtype = T.dtype
        if any(s.pgrid() is not T.pgrid() for s in flat):
            raise ContractFailure('a vector of spaces on different meshes')

    @property
    def key(self):
        return tuple(s.key for s in self.spaces)

    def opname(self):
        return '(%s)' % ','.join(s.opname() for s in self.spaces)

    def pgrid(self):
        return self.spaces[0].pgrid()

    def __getitem__(self, i):
        return self.spaces[i]

    def __len__(self):
        return len(self.spaces)

    @property
    def flatten(self):
        return lambda: list(self.spaces)

    def get_dealiased(self, **kw):
        return MixTPS([s.get_dealiased(**kw) for s in self.spaces])

    def backward(self, u, out=None, **kw):
        if kw:
            raise Unsupported('backward keywords %r' % (kw,))
        self._chk(u, self.U.spec, 'backward input')
        if out is None:
            self.work('backward')
        self._chk(out, self.pgrid(), 'backward output')
        if out.dtype.kind == 'c':
            raise ContractFailure('backward output must be real')
        res = [self.spaces[i]._bwd(list(u.val[i]), u.sites()) for i in range(len(self.spaces))]
        self.clobber()
        for i, r in enumerate(res):
            out.val[i, 0] = r
        return out

    def forward(self, u, out=None, **kw):
        if kw:
            raise Unsupported('forward keywords %r' % (kw,))
        self._chk(u, self.pgrid(), 'forward input')
        if out is None:
            self.work('forward')
        self._chk(out, self.U.spec, 'forward output')
        if out.dtype.kind != 'c':
            raise ContractFailure('forward output must be complex')
        res = [self.spaces[i]._fwd(u.val[i, 0]) for i in range(len(self.spaces))]
        self.clobber()
        for i, r in enumerate(res):
            for j, p in enumerate(out.pts):
                out.val[i, j] = r[p]
        return out


class ChanArr(FunArr):
    """Function/Array over possibly heterogeneous spaces: an integer index selects the component's space."""

    def backward(self, out=None, **kw):
        return self.space.backward(self, Array(self.space) if out is None else out, **kw)

    def forward(self, out=None, **kw):
        return self.space.forward(self, Function(self.space) if out is None else out, **kw)

    def like(self, val):
        r = ChanArr(val, self.grid, self.gax, self.pts, self.dtype)
        r.space = self.space
        return r

    def view_of(self, v, keep, pts):
        r = ChanArr(v, self.grid, keep, pts, self.dtype)
        if v.shape == self.val.shape:
            r.space = self.space
        return r

    def __getitem__(self, key):
        r = SArr.__getitem__(self, key)
        if isinstance(r, ChanArr) and isinstance(self.space, MixTPS):
            k = key[0] if isinstance(key, tuple) else key
            if isinstance(k, numbers.Integral) and r.comps == ():
                r.space = self.space.spaces[int(k)]
            elif isinstance(k, slice) and r.comps and len(r.comps) == 1:
                sub = self.space.spaces[k]
                r.space = self.space if len(sub) == len(self.space.spaces) else MixTPS(sub)
        return r

    def __iter__(self):
        if isinstance(self.space, MixTPS) and self.space.nested:
            return iter([self._part(s, i) for s, i in self.space.parts])
        return SArr.__iter__(self)

    def _part(self, s, i):
        r = ChanArr(self.val[i], self.grid, self.gax, self.pts, self.dtype)
        r.space = s
        return r

    def copy(self, order=None):
        return self.like(self.val.copy())


def _mk(space, grid, dtype, val=0, buffer=None):
    if buffer is not None:
        if not isinstance(buffer, SArr) or buffer.grid is not grid or tuple(buffer.comps) != tuple(space.ncomp):
            raise ContractFailure('buffer of another shape')
        if buffer.dtype.kind != _np.dtype(dtype).kind:
            raise ContractFailure('buffer of another type')
        r0 = buffer
    else:
        r0 = SArr.full(grid, space.ncomp, dtype, val)
    r = ChanArr(r0.val, r0.grid, r0.gax, r0.pts, r0.dtype)
    r.space = space
    return r


def Function(space, val=0, buffer=None, **kw):
    if kw:
        raise Unsupported('Function keywords')
    return _mk(space, space.U.spec, 'complex128', val, buffer)


def Array(space, val=0, buffer=None, **kw):
    if kw:
        raise Unsupported('Array keywords')
    return _mk(space, space.pgrid(), 'float64', val, buffer)


# ------------------------------------------------------------------------------------------------ forms
class Form:
    """Linear differential expression: per component a list of (coefficient, column array, space, orders per axis)."""

    def __init__(self, comps, scalar=False):
        self.comps, self.scalar = comps, scalar

    def __getitem__(self, i):
        return Form([self.comps[i]], True)

    def _map(self, f):
        return Form([[(f(c), a, s, o) for c, a, s, o in t] for t in self.comps], self.scalar)

    def __neg__(self):
        return self._map(lambda c: -c)

    def __mul__(self, k):
        if isinstance(k, (SArr, Form, _np.ndarray)):
            raise Unsupported('product in a form')
        return self._map(lambda c: c*k)
    __rmul__ = __mul__

    def __truediv__(self, k):
        return self._map(lambda c: c/Poly.of(k))

    def __add__(self, o):
        o = form(o)
        if len(o.comps) != len(self.comps):
            raise ContractFailure('sum of forms of different rank')
        return Form([a + b for a, b in zip(self.comps, o.comps)], self.scalar)
    __radd__ = __add__

    def __sub__(self, o):
        return self + (-form(o))

    def __rsub__(self, o):
        return form(o) + (-self)


class TrialComp:
    """Unknown component number i of a block system."""

    def __init__(self, i):
        self.i = i


def _unknowns(space):
    z = (0,)*space.U.dim
    n = 0
    out = []
    for s in ([p for p, _ in space.parts] if isinstance(space, MixTPS) and space.nested else [space]):
        l = s.spaces if isinstance(s, MixTPS) else [s]
        out.append((s, list(range(n, n + len(l))), l, z))
        n += len(l)
    return out


def TrialFunction(space):
    fs = [Form([[(Poly.of(1), TrialComp(i), sp, z)] for i, sp in zip(ix, l)], not isinstance(s, MixTPS)) for s, ix, l, z in _unknowns(space)]
    return fs if isinstance(space, MixTPS) and space.nested else fs[0]


class Test:
    def __init__(self, rows, spaces, space):
        self.rows, self.spaces, self.space = rows, spaces, space

    def __getitem__(self, i):
        return Test([self.rows[i]], [self.spaces[i]], self.spaces[i])


def TestFunction(space):
    ts = [Test(ix, l, s) for s, ix, l, z in _unknowns(space)]
    return ts if isinstance(space, MixTPS) and space.nested else ts[0]


def mode_factor(space, o, p):
    """Factor of the wall-parallel derivatives at generic point number p."""
    U = space.U
    f = Poly.of(1)
    for ax in range(U.dim):
        if ax != U.wall and o[ax]:
            k = Poly.of(0) if U.spec.labels[p] == 'z' else U.wavenumber(ax, U.spec.sites[p], True, False, space.gen)
            for _ in range(o[ax]):
                f = f*k*1j
    return f


def inner(v, f, output_array=None, **kw):
    """Weighted inner product with a test function: columns for known functions, block terms for unknowns."""
    if kw:
        raise Unsupported('inner keywords %r' % sorted(kw))
    if isinstance(f, Test):
        v, f = f, v
    if not isinstance(v, Test):
        raise Unsupported('inner product without a test function')
    if isinstance(f, ChanArr) and f.space is not None and f.grid.kind != 'spec':
        raise Unsupported('inner product of an Array')
    f = form(f)
    if len(f.comps) != len(v.rows):
        raise ContractFailure('inner product of functions of different rank')
    trial = {isinstance(a, TrialComp) for t in f.comps for c, a, s, o in t}
    if len(trial) != 1:
        raise Unsupported('inner product of this form')
    U = v.spaces[0].U
    if trial == {True}:
        out = []
        for row, sp, t in zip(v.rows, v.spaces, f.comps):
            for c, a, s, o in t:
                if s.wb.quad != sp.wb.quad:
                    raise ContractFailure('inner product of spaces with different quadratures')
                out.append((row, a.i, [Poly.of(c)*mode_factor(sp, o, p) for p in range(len(U.spec.sites))], ('M', sp.wb.key, 0, s.wb.key, o[U.wall])))
        return out
    if output_array is None:
        output_array = Function(v.space)
    no_alias(f, output_array, 'inner product')
    res = [weak(t, s) for t, s in zip(f.comps, v.spaces)]
    # shenfun adds the form to the contents of output_array
    if isinstance(v.space, MixTPS):
        for i, r in enumerate(res):
            output_array.val[i] = [x + y for x, y in zip(output_array.val[i], r)]
    else:
        output_array.val[...] = [x + y for x, y in zip(output_array.val, res[0])]
    return output_array


def no_alias(f, out, what):
    for t in f.comps:
        for c, a, s, o in t:
            if isinstance(a, SArr) and _np.shares_memory(a.val, out.val):
                raise ContractFailure('%s: the function and the output share memory' % what)


class BlockMatrix:
    """Solution contract: every row of the block system holds at every mode, except the rows replaced by constraints (mean mode)."""

    def __init__(self, terms, extract_bc_mats=True):
        self.terms = list(terms)

    def solve(self, b, u=None, constraints=()):
        return self(b, u, constraints)

    def __call__(self, b, u=None, constraints=()):
        n = max(max(r, c) for r, c, _, _ in self.terms) + 1
        if u is None:
            raise Unsupported('no solution array')
        for x, nm in ((b, 'right-hand side'), (u, 'solution')):
            if not isinstance(x, SArr) or x.comps != (n,) or x.grid.kind != 'spec':
                raise ContractFailure('block %s of shape %r' % (nm, getattr(x, 'comps', None)))
        if u is not b and _np.shares_memory(u.val, b.val):
            raise ContractFailure('right-hand side and solution share memory')
        self.constraints = constraints
        k = len(BlockMatrix.LOG)
        new = _np.empty((n, len(b.pts)), dtype=object)
        for j, p in enumerate(b.pts):
            x = [poly.atom(('blk', k, i, p), 'x%d_%d@%s' % (k, i, b.grid.labels[p]), complex=True, site=b.grid.sites[p]) for i in range(n)]
            rows = {}
            for r, c, f, key in self.terms:
                rows.setdefault(r, []).append((f[p], key, c))
            for r, ts in rows.items():
                if b.grid.labels[p] == 'z' and any(cs[0] == r for cs in constraints):
                    continue           # some of these rows are replaced
                # the equation of row r eliminates the highest operator of one unknown: its own, or component 0 of the continuity row
                lead = r if any(c == r for _, _, c in ts) else 0
                top = max((key for f, key, c in ts if c == lead), key=lambda q: q[4])
                lc = sum((f for f, key, c in ts if c == lead and key == top), Poly({}))
                if not lc.t:
                    raise Unsupported('block row without a leading term')
                a = next(iter(x[lead].t))[0][0]
                rest = [(f, key, c) for f, key, c in ts if not (c == lead and key == top)]
                BlockMatrix.ELIM[(a, top)] = (lc, rest, x, b.val[r, j])
            new[:, j] = x
        BlockMatrix.LOG.append(self)
        u.val[...] = new
        return u

    def matvec(self, v, c):
        raise Unsupported('block product')
    LOG = []
    ELIM = {}


def form(f):
    if isinstance(f, Form):
        return f
    if not isinstance(f, ChanArr) or f.space is None or f.grid.kind != 'spec':
        raise Unsupported('differential form of something that is not a Function')
    z = (0,)*f.grid.n
    if f.comps == ():
        return Form([[(Poly.of(1), f, f.space, z)]], True)
    return Form([[(Poly.of(1), f[i], f.space[i], z)] for i in range(f.comps[0])])


def Dx(f, axis, order=1):
    f = form(f)
    out = []
    for t in f.comps:
        tt = []
        for c, a, s, o in t:
            o = list(o)
            o[axis] += order
            tt.append((c, a, s, tuple(o)))
        out.append(tt)
    return Form(out, f.scalar)


def grad(f):
    f = form(f)
    if not f.scalar:
        if len(f.comps) != 3:
            raise Unsupported('gradient of this form')
        return Form([Dx(Form([t], True), i).comps[0] for t in f.comps for i in range(3)])
    return Form([Dx(f, i).comps[0] for i in range(3)])


def div(f):
    f = form(f)
    if not f.scalar and len(f.comps) == 9:
        return Form([sum((Dx(Form([f.comps[3*i+j]], True), j).comps[0] for j in range(3)), []) for i in range(3)])
    if f.scalar or len(f.comps) != 3:
        raise Unsupported('divergence of this form')
    return Form([sum((Dx(Form([f.comps[i]], True), i).comps[0] for i in range(3)), [])], True)


def curl(f):
    f = form(f)
    if f.scalar or len(f.comps) != 3:
        raise Unsupported('curl of this form')
    d = lambda i, j: Dx(Form([f.comps[i]], True), j)
    return Form([(d(2, 1)-d(1, 2)).comps[0], (d(0, 2)-d(2, 0)).comps[0], (d(1, 0)-d(0, 1)).comps[0]])


def weak(t, space):
    """(v, form) for the test functions of `space`: one column per mode."""
    U = space.U
    w = U.wall
    out = []
    for p, s in enumerate(U.spec.sites):
        tot = Poly({})
        for c, a, sp, o in t:
            f = Poly.of(c)
            for ax in range(U.dim):
                if ax != w and o[ax]:
                    k = Poly.of(0) if U.spec.labels[p] == 'z' else U.wavenumber(ax, s, True, False, space.gen)
                    for _ in range(o[ax]):
                        f = f*k*1j
            tot = tot + f*apply_op(('M', space.wb.key, 0, sp.wb.key, o[w]), a.val[p])
        out.append(tot)
    return out


def project(f, T, output_array=None, **kw):
    """Weighted L2 projection of a form on the space(s) T."""
    if kw:
        raise Unsupported('project keywords')
    f = form(f)
    if output_array is None:
        output_array = Function(T)
    sp = T.spaces if isinstance(T, MixTPS) else [T]
    if len(sp) != len(f.comps):
        raise ContractFailure('projection of a form of %d components on %d spaces' % (len(f.comps), len(sp)))
    if output_array.grid is not T.U.spec or tuple(output_array.comps) != tuple(T.ncomp):
        raise ContractFailure('projection output has another shape')
    no_alias(f, output_array, 'projection')
    scalar = f.scalar and not isinstance(T, MixTPS)
    prev = [output_array.val] if scalar else [output_array.val[i] for i in range(len(sp))]
    # shenfun adds the form to the contents of output_array before it solves the mass matrix
    res = [[apply_op(('I', s.wb.key), Poly.of(q) + p) for p, q in zip(weak(t, s), pv)] for t, s, pv in zip(f.comps, sp, prev)]
    for i, r in enumerate(res):
        if scalar:
            output_array.val[...] = r
        else:
            output_array.val[i] = r
    return output_array


def Mult_CTD(U):
    def Mult_CTD_3D_ptr(N, u, v, Fu, Fv, axis=0):
        """Contract of the compiled kernel (C13): coefficients in the Chebyshev basis of the wall-normal derivatives."""
        if not (N == U.spec.dims[U.wall]):
            raise ContractFailure('Mult_CTD_3D_ptr: the size given is not the wall-normal size')
        for x in (u, v, Fu, Fv):
            columns(x, 'Mult_CTD_3D_ptr argument')
            wall_axis(x, axis, 'Mult_CTD_3D_ptr argument')
        for a in (u, v):
            for b in (Fu, Fv):
                if _np.shares_memory(a.val, b.val):
                    raise ContractFailure('Mult_CTD_3D_ptr: input and output share memory')
        q = U.quad
        for a, b in ((u, Fu), (v, Fv)):
            for j in range(len(a.pts)):
                b.val[j] = apply_op(('I', ('T', q)), apply_op(('M', ('T', q), 0, ('D', q), 1), a.val[j]))
        return None
    return Mult_CTD_3D_ptr


class MPIComm:
    def __init__(self, rank):
        self.r = rank

    def Get_rank(self):
        return self.r
    rank = property(lambda s: s.r)

    def Get_size(self):
        return 1 if self.r == 0 else 2
    size = property(lambda s: s.Get_size())

    def barrier(self):
        pass
    Barrier = barrier


def fakes_channel(U, rank=0, quad_default='GC'):
    comm = MPIComm(rank)

    def FunctionSpace(N, family='F', bc=None, quad=None, domain=None, dtype=None, **kw):
        if kw:
            raise Unsupported('FunctionSpace keywords %r' % sorted(kw))
        if family in ('F', 'fourier', 'Fourier'):
            b = Basis('F', 'F', N, domain=domain, dtype=dtype)
        elif family in ('C', 'Chebyshev', 'chebyshev'):
            if bc is None:
                kind = 'T'
            elif len(bc) == 2:
                kind = 'D' if all(isinstance(x, numbers.Number) and x == 0 for x in bc) else 'R'
            elif len(bc) == 4 and all(isinstance(x, numbers.Number) and x == 0 for x in bc):
                kind = 'B'
            else:
                raise Unsupported('boundary condition %r' % (bc,))
            b = Basis('C', kind, N, quad or quad_default, bc, domain=domain)
            if domain not in (None, (-1, 1)):
                raise Unsupported('wall-normal domain')
        else:
            raise Unsupported('family %r' % (family,))
        U.log.append(b)
        return b

    def TensorProductSpace(comm_, bases, axes=None, dtype=None, **kw):
        if len(bases) != 3:
            raise ContractFailure('wrong number of bases')
        if axes is not None and axes[0] != U.wall:
            raise ContractFailure('transform order %r does not start with the wall-normal axis' % (axes,))
        for a, b in enumerate(bases):
            if not (b.N == U.spec.dims[a]):
                raise ContractFailure('axis %d of the space has the size of another axis' % a)
            if b.fam == 'F':
                dom = b.kw.get('domain')
                if dom is None or dom[0] != 0 or not (Poly.of(dom[1]) - U.L[a]).t == {}:
                    raise ContractFailure('axis %d of the space has domain %r' % (a, dom))
        T = WTPS(U, comm_, bases)
        return T

    def Vector(l):
        return MixTPS(l if isinstance(l, (list, tuple)) else [l]*U.dim)

    shf = Fake('shenfun', FunctionSpace=FunctionSpace, TensorProductSpace=TensorProductSpace, VectorSpace=Vector, CompositeSpace=Vector,
               VectorTensorProductSpace=Vector, Array=Array, Function=Function, CachedArrayDict=shen.Work, Dx=Dx, grad=grad, div=div, curl=curl,
               project=project, inner=inner, TestFunction=TestFunction, TrialFunction=TrialFunction, BlockMatrix=BlockMatrix, ShenfunFile=_Missing('ShenfunFile'))
    F = shen.base_fakes(shf)
    bases = Fake('shenfun.chebyshev.bases', ShenDirichlet=ShenDirichlet, ShenBiharmonic=ShenBiharmonic)
    Mv = Fake('Matvec', Helmholtz_matvec=Helmholtz_matvec, Biharmonic_matvec=Biharmonic_matvec)
    la = Fake('shenfun.chebyshev.la', Helmholtz=Helmholtz, Biharmonic=Biharmonic)
    cy = Fake('shenfun.optimization.cython', Matvec=Mv)
    F.update({'shenfun.spectralbase': Fake('shenfun.spectralbase', inner_product=inner_product),
              'shenfun.la': Fake('shenfun.la', TDMA=TDMA),
              'shenfun.chebyshev': Fake('shenfun.chebyshev', bases=bases, la=la), 'shenfun.chebyshev.bases': bases,
              'shenfun.chebyshev.la': la, 'shenfun.optimization': Fake('shenfun.optimization', cython=cy), 'shenfun.optimization.cython': cy})
    from .load import _MPI
    mpi = Fake('mpi4py.MPI', COMM_WORLD=comm, C_FLOAT_COMPLEX='fc', C_DOUBLE_COMPLEX='dc', MIN='min', MAX='max', SUM='sum')
    F['mpi4py'] = Fake('mpi4py', MPI=mpi)
    return F


def reset():
    WORD.clear()
    HOMOG.clear()
    ELEM.clear()
    Solver.LOG.clear()
    BlockMatrix.LOG.clear()
    BlockMatrix.ELIM.clear()


poly.RESETS.append(reset)


def reduce(p):
    """Normal form under the equations of all solved columns (their highest operator is eliminated)."""
    for _ in range(400):
        todo = None
        for m, c in p.t.items():
            for a, e in m:
                if a in WORD and WORD[a][0]:
                    word, x = WORD[a]
                    if (x in Solver.LOG and word[-1] == Solver.LOG[x][0][0][0].key) or (x, word[-1]) in BlockMatrix.ELIM:
                        todo = (m, c, a, e)
                        break
            if todo:
                break
        if todo is None:
            return p
        m, c, a, e = todo
        if e != 1:
            raise Unsupported('power of a column')
        word, x = WORD[a]
        if x in Solver.LOG:
            terms, b = Solver.LOG[x]
            X = ONEATOM(x)
            new = (b - sum((s*mt.op(X) for mt, s in terms[1:]), Poly({})))/terms[0][1]
        else:
            lc, rest, xs, b = BlockMatrix.ELIM[(x, word[-1])]
            new = (b - sum((f*apply_op(k, xs[i]) for f, k, i in rest), Poly({})))/lc
        for o in reversed(word[:-1]):
            new = apply_op(o, new)
        rest = tuple(y for y in m if y[0] != a)
        p = p - Poly({m: c}) + Poly({rest: c})*new
    raise Unsupported('elimination does not end')
