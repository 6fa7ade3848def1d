"""The channel integral: exact on every Chebyshev polynomial the mesh resolves, for a symbolic number of points."""
from vc import poly, load
from vc.poly import Poly
from vc.sym import assume, compare, choose, ContractFailure, Unsupported, BoundsError
from vc.load import Fake, _MPI
from vc.seq import Seq, View, P, decide, split
import numpy as np
import builtins
import operator

META = dict(
    functions=['spectralDNS.utilities.dx'],
    trusted=['the VC generator vc/ and the vector domain vc/seq.py (a vector of symbolic length is a function of its index; slices, strides, '
             'concatenation and elementwise arithmetic act on the index)', 'z3',
             'discrete orthogonality of the cosine transforms: DCT-I of cos(n pi j/(M-1)), 0<=n<M, is (M-1)(1+[n=0 or n=M-1]) at k=n and 0 elsewhere; '
             'the DCT-III of d paired with cos(n pi (2j+1)/(2M)), 0<=n<M, is M d_n',
             'shenfun: the points of a Chebyshev basis of M points are cos(pi (2j+1)/(2M)) (GC) or cos(pi j/(M-1)) (GL), uniform in the periodic directions; '
             'local_slice(False)[axis] is the local part of the physical mesh, shape()[axis] the number of points in the wall-normal direction',
             'MPI Reduce with SUM delivers on the root the sum over the processes',
             'floating-point arithmetic treated as exact'],
    assumptions=['the wall-normal domain is (-1, 1) as in every solver; at least two points for Gauss-Lobatto (the quadrature is undefined otherwise)',
                 'the Chebyshev polynomials T_0..T_{M-1} span the polynomials of degree below M, and the integral is linear in the field: arbitrary amplitudes in '
                 'the wall-parallel directions enter as an arbitrary value per wall-parallel point',
                 'the Legendre branch is not used by any solver and is not claimed'],
    bounded='real dx on random polynomials times wall-parallel waves: all sizes 2..40, both quadratures, axes, random domains, and 2 MPI processes')


# ------------------------------------------------------------------------------------------ the field and the transforms
class World:
    def __init__(self, axis, quad, rank, dist):
        w = self
        self.axis, self.quad, self.rank, self.dist = axis, quad, rank, dist
        self.half = poly.atom('half', 'm', kind='int', info=('ge1',))
        self.q = poly.atom('q', 'q', kind='int', info=('ge0',))
        self.odd = choose(2, 'M odd')
        self.M = P(2)*self.half + self.odd
        self.n = P(2)*self.q + choose(2, 'n odd')
        assume(compare('>=', self.q, P(0)))
        assume(compare('<', self.n, self.M))
        self.F = poly.atom('F', 'F')       # sum of the amplitude over the wall-parallel points of all processes
        self.lo = poly.atom('lo', 'lo', kind='int', info=('ge0',))
        self.hi = poly.atom('hi', 'hi', kind='int', info=('ge0',))
        for c in (compare('>=', self.lo, P(0)), compare('<=', self.lo, self.hi), compare('<=', self.hi, self.M)):
            assume(c) if not isinstance(c, bool) else None
        self.reduced = 0
        N = [poly.atom('N%d' % a, 'N%d' % a, kind='int', info=('ge1',)) for a in range(3)]
        N[axis] = self.M
        Ln = [poly.atom('L%d' % a, 'L%d' % a, positive=True) for a in range(3)]
        Ln[axis] = P(2)
        self.N, self.Ln = N, Ln

        def oarr(l):
            r = np.empty(3, dtype=object)
            r[:] = l
            return r
        self.params = Fake('params', L=oarr(Ln), N=oarr(N))

        class Comm:
            rank = w.rank

            def Get_rank(self):
                return w.rank

            def Reduce(self, send, recv, op=None, root=0, everywhere=False):
                w.reduced += 1
                if op != _MPI.SUM or root != 0:
                    raise ContractFailure('the parts must be summed on process 0')
                if not isinstance(send, Seq) or not isinstance(recv, Seq) or isinstance(recv, View):
                    raise Unsupported('what is reduced')
                if send is recv:
                    raise ContractFailure('send and receive buffers must not overlap')
                if not (P(send.n-w.M).same(P(0)) and P(recv.n-w.M).same(P(0))):
                    raise ContractFailure('every process must contribute a vector of the full length')
                # the local part inside its slice, zero outside
                i = poly.atom('i', 'i', kind='int', info=('ge0',))
                inside = choose(2, 'inside')
                if not inside:
                    assume(compare('<', i, w.lo) if choose(2, 'side') else compare('>=', i, w.hi))
                    assume(compare('<', i, w.M))
                    assume(compare('>=', i, P(0)))
                    w.V.eq('a process contributes nothing at the points of others', send.at(i), 0)
                i = poly.atom('j', 'j', kind='int', info=('ge0',))
                assume(compare('>=', i, w.lo))
                assume(compare('<', i, w.hi))
                f = scale_of(send, lambda j: w.local(j-w.lo), i)
                w.V.eq('a process contributes its own values at its own points', send.at(i), f*w.local(i-w.lo))
                if w.rank == 0 or everywhere:
                    recv.fn = lambda j: f*poly.opaque('sample', P(j))
                    recv.samples = True

            def Allreduce(self, send, recv, op=None):
                self.Reduce(send, recv, op, everywhere=True)
        self.comm = Comm()

        class B:
            def __init__(self, a):
                self.a = a
                self.quad = w.quad if a == axis else ''
                self.N = N[a]

            def family(self):
                return 'chebyshev' if self.a == axis else 'fourier'

        class FST:
            comm = w.comm
            bases = [B(a) for a in range(3)]

            def local_slice(self, spectral=True):
                if spectral:
                    raise Unsupported('slice of the spectral mesh')
                s = [slice(poly.atom('l%d' % a, 'l', kind='int'), poly.atom('h%d' % a, 'h', kind='int')) for a in range(3)]
                s[axis] = slice(w.lo, w.hi)
                return tuple(s)

            def shape(self, spectral=True):
                if not spectral:
                    raise Unsupported('local shape of the physical mesh')
                s = [poly.atom('s%d' % a, 's', kind='int') for a in range(3)]
                s[axis] = w.M
                return tuple(s)

            def global_shape(self, spectral=True):
                return tuple(N)
        self.FST = FST()

    def local(self, j):
        """The sum over the local wall-parallel points at local wall-normal point j."""
        return poly.opaque('local', P(j))


class Field:
    """factor times the local part of the field T_n(x) a(y, z), summed over the wall-parallel axes that are gone."""
    dtype = np.dtype(float)
    __array_ufunc__ = None

    def __init__(self, w, axes=(0, 1, 2), factor=1):
        self.w, self.axes, self.factor = w, axes, P(factor)
        self.ndim = len(axes)

    def sum(self, axis=None, **k):
        if k:
            raise Unsupported('sum with options')
        if axis is None:
            axis = tuple(range(self.ndim))
        given = [operator.index(a) for a in (axis if isinstance(axis, (tuple, list)) else (axis,))]
        if any(not -self.ndim <= a < self.ndim for a in given):
            raise ContractFailure('sum over an axis that does not exist')
        gone = {self.axes[a] for a in given}
        if len(gone) != len(given):
            raise ContractFailure('duplicate axis of a sum')
        if self.w.axis in gone:
            raise ContractFailure('the sum must be over the two wall-parallel directions')
        left = tuple(a for a in self.axes if a not in gone)
        return Local(self.w, self.factor) if left == (self.w.axis,) else Field(self.w, left, self.factor)

    def __mul__(self, o):
        if isinstance(o, (int, float, Poly)):
            return Field(self.w, self.axes, self.factor*o)
        return NotImplemented
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self*P(o).inv() if isinstance(o, (int, float, Poly)) else NotImplemented

    def __neg__(self):
        return self*-1


def scale_of(x, what, j):
    """f such that x[j] = f * what(j), f the same for every j."""
    v, (m,) = P(x.at(j)), what(j).t
    (atom, e), = m
    f = {}
    for mono, c in v.t.items():
        if dict(mono).get(atom) != e:
            raise Unsupported('a vector that is not a multiple of the field')
        f[tuple((a, k) for a, k in mono if a != atom)] = c
    (i, _), = list(P(j).t)[0]
    if any(a == i or poly.ATOMS[a].name in ('sample', 'local') for mono in f for a, _ in mono):
        raise Unsupported('weights along the wall-normal direction before the transform')
    return Poly(f)


class Local(Seq):
    def __init__(self, w, factor=1):
        self.w = w
        Seq.__init__(self, w.hi-w.lo, lambda j: P(factor)*w.local(j))


class Dct3:
    """factor * DCT-III of d."""
    __array_ufunc__ = None

    def __init__(self, d, factor=1):
        self.d, self.factor = d, P(factor)

    def __mul__(self, o):
        if isinstance(o, (int, float, Poly)):
            return Dct3(self.d, self.factor*o)
        if isinstance(o, Seq) and getattr(o, 'samples', False):
            return Pair(self.d, self.factor*field_factor(o), o)
        return NotImplemented
    __rmul__ = __mul__

    def __truediv__(self, o):
        return Dct3(self.d, self.factor*P(o).inv())

    def __imul__(self, o):
        return self*o

    def __itruediv__(self, o):
        return self/o


def field_factor(x):
    return scale_of(x, lambda j: poly.opaque('sample', P(j)), poly.atom('js', 'js', kind='int', info=('ge0',)))


class Pair:
    __array_ufunc__ = None

    def __init__(self, d, factor, c):
        self.d, self.factor, self.c = d, factor, c

    def __mul__(self, o):
        return Pair(self.d, self.factor*o, self.c)
    __rmul__ = __mul__


def load_dx(V, w):
    M = w.M

    def aligned(n, dtype=float, fill=None, **k):
        if not isinstance(n, (Poly, int)):
            raise Unsupported('shape of an aligned array')
        tag = poly.atom(('garbage', len(w_garbage)), 'garbage')
        w_garbage.append(tag)
        return Seq(n, lambda i: P(fill)) if fill is not None else Seq(n, lambda i: poly.opaque('garbage%d' % len(w_garbage), P(i)))
    w_garbage = []

    def aligned_like(z, fill=None):
        return aligned(z.n, fill=fill)

    def dctn(a, axes=(0,), type=3, **k):
        if not isinstance(a, Seq) or tuple(axes) != (0,) or set(k) - {'threads', 'flags'}:
            raise Unsupported('planning of a transform')
        length = a.n

        def run(x=None, out=None, **kw):
            if x is None or out is None or kw:
                raise Unsupported('transform called on its own buffers')
            if not isinstance(x, Seq) or not P(x.n-length).same(P(0)) or not P(out.n-length).same(P(0)):
                raise ContractFailure('the transform is planned for another length')
            if type == 1:
                if not getattr(x, 'samples', False):
                    raise Unsupported('type-1 transform of something else than the field')
                if w.quad != 'GL':
                    raise ContractFailure('type-1 transform of values at Gauss points')
                n, one = w.n, P(1)
                amp = field_factor(x)*(w.M-1)*w.F*(2 if decide('==', n, 0) or decide('==', n, w.M-1) else 1)
                out.fn = lambda k: amp if decide('==', k, n) else P(0)
                out.only = n
                out.dct = 1
                return out
            if type == 3:
                f = Seq(x.n, x.fn)
                return Dct3(f)
            raise Unsupported('transform of type %r' % (type,))
        return run

    class NPx:
        def __getattr__(self, n):
            if n in ('arange', 'hstack', 'sum', 'ones', 'zeros', 'dot', 'asarray', 'array', 'concatenate', 'zeros_like', 'ones_like', 'empty'):
                raise AttributeError(n)
            return getattr(np, n)

        float64 = float

        @staticmethod
        def arange(*a, dtype=None):
            lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
            if not any(isinstance(x, Poly) for x in (lo, hi, st)):
                return np.arange(lo, hi, st)
            if st == 1:
                n = P(hi)-P(lo)
            else:
                n = None
                for r in range(st):
                    ok, q = split(P(hi)-P(lo)+r, st)
                    if ok:
                        n = q
                        break
            return Seq(n, lambda i: P(lo)+P(i)*st)

        @staticmethod
        def hstack(parts):
            fs, tot = [], P(0)
            for p in parts:
                if isinstance(p, (int, float, Poly)):
                    fs.append((tot, P(1), (lambda v: lambda i: P(v))(p)))
                    tot = tot+1
                elif isinstance(p, (list, tuple, np.ndarray)):
                    for v in p:
                        fs.append((tot, P(1), (lambda v: lambda i: P(v))(v)))
                        tot = tot+1
                elif isinstance(p, Seq):
                    fs.append((tot, p.n, p.fn))
                    tot = tot+p.n
                else:
                    raise Unsupported('hstack')

            def fn(i):
                for off, n, f in fs[:-1]:
                    if decide('<', i, off+n):
                        return f(P(i)-off)
                return fs[-1][2](P(i)-fs[-1][0])
            return Seq(tot, fn)
        concatenate = hstack

        @staticmethod
        def zeros(n, *a, **k):
            return Seq(n, lambda i: P(0)) if isinstance(n, Poly) else np.zeros(n, *a, **k)

        @staticmethod
        def ones(n, *a, **k):
            return Seq(n, lambda i: P(1)) if isinstance(n, Poly) else np.ones(n, *a, **k)

        @staticmethod
        def zeros_like(a, *x, **k):
            return Seq(a.n, lambda i: P(0)) if isinstance(a, Seq) else np.zeros_like(a)

        @staticmethod
        def sum(x, axis=None, **k):
            if isinstance(x, Field):
                return x.sum(axis, **k)
            if axis not in (None, 0) or k:
                raise Unsupported('sum over axes')
            return total(x)

        @staticmethod
        def dot(a, b):
            return total(a*b)

    def total(x, start=0):
        if isinstance(x, Pair):
            return x.factor*w.M*x.d.at(w.n)*w.F
        if isinstance(x, Seq):
            if x.only is None:
                raise Unsupported('sum of a vector of symbolic length')
            return x.at(x.only)
        if isinstance(x, (Dct3, Field)):
            raise Unsupported('sum')
        return builtins.sum(x, start)

    fft = Fake('mpi4py_fft.fftw', dctn=dctn, aligned=aligned, aligned_like=aligned_like)
    cfg = Fake('spectralDNS.config', params=w.params)
    L = load.Loader({'numpy': NPx(), 'mpi4py': Fake('mpi4py', MPI=_MPI), 'mpi4py_fft': Fake('mpi4py_fft', fftw=fft), 'mpi4py_fft.fftw': fft},
                    overrides={'spectralDNS.config': cfg, 'spectralDNS': _pkg(cfg), 'spectralDNS.utilities.create_profile': Fake('cp'),
                               'spectralDNS.utilities.memoryprofiler': Fake('mp')}, builtin={'sum': total})
    f = L.load('spectralDNS.utilities').dx
    V.files |= L.files
    return f


def _pkg(cfg):
    m = Fake('spectralDNS', config=cfg)
    m.__path__ = []
    return m


def prove(V):
    for axis in range(3):
        for quad in ('GC', 'GL'):
            V.case('axis %d, %s' % (axis, quad), lambda: integral(V, axis, quad, 0))
            V.case('axis %d, %s, other process' % (axis, quad), lambda: integral(V, axis, quad, 1))


def integral(V, axis, quad, rank):
    w = World(axis, quad, rank, True)
    w.V = V
    dx = load_dx(V, w)
    how = choose(3 if axis == 0 else 2, 'axis given')
    r = dx(Field(w), w.FST) if how == 2 else dx(Field(w), w.FST, axis=axis-3*how)
    V.true('the parts of the processes are combined once', w.reduced == 1)
    if rank:
        V.true('the other processes return a plain number', isinstance(r, (int, float)))
        return
    area = P(1)
    for a in range(3):
        if a != axis:
            area = area*w.Ln[a]*P(w.N[a]).inv()
    # integral of T_n over (-1, 1)
    ok, _ = split(w.n, 2)
    exact = P(2)*(P(1)-w.n*w.n).inv() if ok else P(0)
    V.eq('the integral of T_n a(y, z) is exact', r, exact*w.F*area)
