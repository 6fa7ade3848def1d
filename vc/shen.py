"""Contracts for the external libraries (assumed, listed in the evidence): shenfun, mpi4py, mpi4py-fft, h5py.

Transforms are uninterpreted real-linear operators between the generic points of two grids; two transforms agree iff
their operator (space, padding, truncation) and argument agree.
"""
import itertools
import numpy as _np
from . import poly, sym, arr
from .poly import Poly, ATOMS
from .sym import Unsupported, ContractFailure, ST
from .arr import SArr, Grid, NP
from .load import Fake, _MPI, COMM, _Missing


def scalar_split(m, sites):
    """monomial -> (scalar part, part living on `sites`)"""
    s, g = [], []
    for a, e in m:
        st = ATOMS[a].site
        if st is None:
            s.append((a, e))
        elif st in sites:
            g.append((a, e))
        else:
            raise Unsupported('value %s of another grid inside a transform' % ATOMS[a].name)
    return tuple(s), tuple(g)


def real_linear(p, sites, basis):
    """Apply a real-linear map given by basis(monomial, times_i) to a poly; scalars are pulled out."""
    out = Poly({})
    for m, c in p.t.items():
        s, g = scalar_split(m, sites)
        for a, e in s:
            if ATOMS[a].kind == 'complex':
                raise Unsupported('complex scalar inside a real-linear transform')
        if c[0]:
            out = out + Poly({s: (c[0], poly.ZERO[0])})*basis(g, False)
        if c[1]:
            out = out + Poly({s: (c[1], poly.ZERO[0])})*basis(g, True)
    return out


def mono_name(g, i=False):
    return ('i*' if i else '') + ('*'.join(ATOMS[a].name + ('' if e == 1 else '^%d' % e) for a, e in g) or '1')


class Universe:
    """Grids of one configuration."""

    def __init__(self, dim, labels=('z', 'g'), wall=None):
        self.dim = dim
        self.wall = wall
        self.spec = Grid('k', 'spec', dim, list(labels), wall=wall)
        self.phys = {}
        self.fields = 0
        self.gen = 0            # number of the domain (L) in force: spaces keep the one they were made with

    def pgrid(self, padding):
        key = str(padding)
        if key not in self.phys:
            self.phys[key] = Grid('x' if float(padding) == 1 else 'x%s' % key, 'phys', self.dim, ['p'], wall=self.wall)
        return self.phys[key]


class Basis1D:
    def __init__(self, N, family='F', **kw):
        self.N, self.fam, self.kw = N, family, kw

    def family(self):
        return {'F': 'fourier', 'C': 'chebyshev', 'L': 'legendre'}[self.fam]


CLOBBER = itertools.count()


def same_domain(a, b):
    b.gen = a.gen
    return b



def _no_mask(U):
    """The mask is None or not, for all spaces alike (it depends on the parity of the sizes only)."""
    if getattr(U, 'nomask', False):
        return True
    if not hasattr(U, 'masked'):
        U.masked = sym.choose(2, 'no-nyquist-mask') == 0
    return not U.masked


class TPS:
    """Tensor product space (scalar)."""

    def __init__(self, U, comm, bases, dtype=float, padding=1, direct=False, name='T', **kw):
        self.U, self.comm, self.bases = U, comm, bases
        self.padding, self.direct = padding, direct
        self.name = name
        self.kw = kw
        self.dtype = dtype
        self.rank = 0
        self.dimensions = U.dim
        self.ncomp = ()
        self.gen = U.gen

    @property
    def key(self):
        return (self.name, float(self.padding), bool(self.direct))

    def pgrid(self):
        return self.U.pgrid(self.padding)

    def shape(self, spectral=False, forward_output=None):
        if forward_output is not None:
            spectral = forward_output
        g = self.U.spec if spectral else self.pgrid()
        return tuple(int(c) for c in self.ncomp) + tuple(g.dims)

    def global_shape(self, spectral=False):
        return self.shape(spectral)

    def get_dealiased(self, padding_factor=1.5, dealias_direct=False):
        return same_domain(self, TPS(self.U, self.comm, self.bases, padding=padding_factor, direct=dealias_direct, name=self.name))

    def local_wavenumbers(self, broadcast=False, scaled=False, eliminate_highest_freq=False):
        out = []
        g = self.U.spec
        for a in range(self.U.dim):
            r = SArr.full(g, (), 'float64')
            r.gax = tuple((b, b == a or bool(broadcast)) for b in range(g.n))
            if a == self.U.wall:
                for p, s in enumerate(g.sites):
                    r.val[p] = poly.atom(('wk', a, s), 'k%d@%s' % (a, g.labels[p]), site=s)
            else:
                for p, s in enumerate(g.sites):
                    if g.labels[p] != 'z':
                        r.val[p] = self.U.wavenumber(a, s, bool(scaled), bool(eliminate_highest_freq), self.gen)
            out.append(r)
        return out

    def local_mesh(self, broadcast=False, uniform=False):
        out = []
        g = self.pgrid()
        for a in range(self.U.dim):
            r = SArr.full(g, (), 'float64')
            r.gax = tuple((b, b == a or bool(broadcast)) for b in range(g.n))
            for p, s in enumerate(g.sites):
                r.val[p] = poly.atom(('mesh', a, s) + ((self.gen,) if self.gen else ()), 'x%d%s' % (a, "'"*self.gen), site=s)
            out.append(r)
        return out

    def get_mask_nyquist(self):
        if _no_mask(self.U):
            return None
        g = self.U.spec
        m = SArr.full(g, (), 'float64')
        for p, s in enumerate(g.sites):
            m.val[p] = poly.atom(('mask', s), 'mask@%s' % g.labels[p], site=s, col=False) if g.labels[p] != 'z' else Poly.of(1)
        return m

    # ---- transforms
    def _bwd(self, v, sites):
        """values at the spectral points -> physical value"""
        key = self.key
        ps = self.pgrid().sites[0]
        tot = Poly({})
        for p, s in zip(v, sites):
            def basis(g, i, s=s):
                return poly.atom(('B', key, s, g, i), 'B[%s%s|%s]' % (self.opname(), '' if s.endswith('g') else ',0', mono_name(g, i)), site=ps)
            tot = tot + real_linear(p, (s,), basis)
        return tot

    def opname(self):
        return self.name + ('' if float(self.padding) == 1 else ',3/2') + (',2/3' if self.direct else '')

    def _fwd(self, p):
        if not p.is_real():
            raise ContractFailure('forward transform of a complex field')
        key = self.key
        ps = self.pgrid().sites
        out = []
        for s in self.U.spec.sites:
            def basis(g, i, s=s):
                return poly.atom(('F', key, s, g), 'F[%s|%s]@%s' % (self.opname(), mono_name(g), s[-1]), complex=True, site=s)
            t = Poly({})
            # real argument: expand over monomials of real atoms
            for m, c in p.t.items():
                sc, g = scalar_split(m, ps)
                if c[1]:
                    raise Unsupported('complex coefficient in a real field')
                t = t + Poly({sc: c})*basis(g, False)
            out.append(t)
        return out

    def backward(self, u, out=None, **kw):
        if kw:
            raise Unsupported('backward keywords %r' % (kw,))
        if not isinstance(u, SArr):
            raise ContractFailure('backward of a non-array')
        self._chk(u, self.U.spec, 'backward input')
        if out is None:
            out = self.work('backward')
        self._chk(out, self.pgrid(), 'backward output')
        if out.dtype.kind == 'c':
            raise ContractFailure('backward output must be real')
        res = _np.empty(out.val.shape, dtype=object)
        for ix in _np.ndindex(u.comps):
            res[ix + (0,)] = self._bwd([u.val[ix + (j,)] for j in range(len(u.pts))], u.sites())
        self.clobber()
        out.val[...] = res
        return out

    def forward(self, u, out=None, **kw):
        if kw:
            raise Unsupported('forward keywords %r' % (kw,))
        if not isinstance(u, SArr):
            raise ContractFailure('forward of a non-array')
        self._chk(u, self.pgrid(), 'forward input')
        if out is None:
            out = self.work('forward')
        self._chk(out, self.U.spec, 'forward output')
        if out.dtype.kind != 'c':
            raise ContractFailure('forward output must be complex')
        res = _np.empty(out.val.shape, dtype=object)
        for ix in _np.ndindex(u.comps):
            t = self._fwd(u.val[ix + (0,)])
            for j, p in enumerate(out.pts):
                res[ix + (j,)] = t[p]
        self.clobber()
        out.val[...] = res
        return out

    WORK = None

    def work(self, direction):
        """The array a transform called without an output array returns: the transform's own work array (plain
        ndarray, shared by all calls and by both directions: backward.output_array is forward.input_array)."""
        if tuple(self.ncomp):
            raise TypeError("__call__() missing 1 required positional argument: 'output_array'")
        if self.WORK is None:
            self.WORK = {}
        if direction not in self.WORK:
            g = self.pgrid() if direction == 'backward' else self.U.spec
            self.WORK[direction] = SArr.full(g, (), 'float64' if direction == 'backward' else 'complex128')
        return self.WORK[direction]

    def clobber(self):
        """A transform overwrites its work arrays: what an earlier call returned without an output array is gone."""
        for t in {id(t): t for t in getattr(self, 'spaces', ())}.values():
            t.clobber()
        for d, a in (self.WORK or {}).items():
            for j, p in enumerate(a.pts):
                n = next(CLOBBER)
                a.val[j] = poly.atom(('clobbered', n), 'overwritten-work-array%d' % n, complex=d == 'forward', site=a.grid.sites[p])

    def _chk(self, u, grid, what):
        if u.grid is not grid:
            raise ContractFailure('%s of %s lives on grid %s, not %s' % (what, self.opname(), u.grid.name, grid.name))
        if tuple(u.comps) != tuple(self.ncomp):
            raise ContractFailure('%s has components %r, space has %r' % (what, u.comps, self.ncomp))
        if any(not f for a, f in u.gax):
            raise ContractFailure('%s has broadcast axes' % what)
        if len(u.pts) != len(grid.sites):
            raise Unsupported('%s on part of the grid' % what)

    def __getitem__(self, i):
        return self


class VectorTPS(TPS):
    def __init__(self, T, ncomp):
        TPS.__init__(self, T.U, T.comm, T.bases, padding=T.padding, direct=T.direct, name=T.name)
        self.T = T
        self.ncomp = (ncomp,)
        self.rank = 1
        self.spaces = [T]*ncomp

    def __getitem__(self, i):
        return self.T

    def get_dealiased(self, **kw):
        return same_domain(self, VectorTPS(self.T.get_dealiased(**kw), self.ncomp[0]))

    @property
    def flatten(self):
        return lambda: [self.T]*self.ncomp[0]


class FunArr(SArr):
    """shenfun Function/Array."""
    space = None

    def like(self, val):
        r = FunArr(val, self.grid, self.gax, self.pts, self.dtype)
        r.space = self.space
        return r

    def view_of(self, v, keep, pts):
        r = FunArr(v, self.grid, keep, pts, self.dtype)
        if v.ndim - 1 == 0 and self.space is not None:
            r.space = getattr(self.space, 'T', self.space)
        elif v.ndim == self.val.ndim and v.shape == self.val.shape:
            r.space = self.space
        return r

    def function_space(self):
        return self.space

    def backward(self, out=None, **kw):
        return self.space.backward(self, Array(self.space) if out is None else out, **kw)

    def forward(self, out=None, **kw):
        return self.space.forward(self, Function(self.space) if out is None else out, **kw)

    def mask_nyquist(self, mask):
        if mask is not None:
            self[...] = self*mask
        return self

    @property
    def v(self):
        return self

    def zero(self):
        self.fill(0)


def _mk(space, grid, dtype, val=0):
    r0 = SArr.full(grid, space.ncomp, dtype, val)
    r = FunArr(r0.val, r0.grid, r0.gax, r0.pts, r0.dtype)
    r.space = space
    return r


def Function(space, val=0, buffer=None, **kw):
    if buffer is not None or kw:
        raise Unsupported('Function(buffer=...)')
    return _mk(space, space.U.spec, 'complex128', val)


def Array(space, val=0, buffer=None, **kw):
    if buffer is not None:
        raise Unsupported('Array(buffer=...)')
    return _mk(space, space.pgrid(), 'float64', val)


class Work:
    """shenfun CachedArrayDict: one buffer per (shape, dtype, index); zero-filled unless told otherwise."""

    def __init__(self):
        self.d = {}

    def __getitem__(self, key):
        if not isinstance(key, tuple) or len(key) not in (2, 3):
            raise ContractFailure('work-array key %r' % (key,))
        fill = True
        if len(key) == 3:
            a, i, fill = key
        else:
            a, i = key
        if isinstance(a, tuple):
            raise Unsupported('work array from a shape tuple')
        if not isinstance(a, SArr):
            raise ContractFailure('work-array prototype is not an array')
        k = (a.grid.name, tuple(a.comps), a.gax, a.dtype.kind, int(i))
        r = self.d.get(k)
        if r is None:
            r = SArr(_np.empty(a.val.shape, dtype=object), a.grid, a.gax, a.pts, a.dtype)
            arr.garbage(r, 'work%s' % (k,))
            self.d[k] = r
        if fill:
            r.fill(0)
        return SArr(r.val, r.grid, r.gax, r.pts, r.dtype)


class FakeH5:
    def __init__(self, filename, checkpoint={}, results={}):
        self.filename, self.checkpoint, self.results = filename, checkpoint, results


def fakes_periodic(U):
    """The fake module table for the Fourier solvers."""
    def FunctionSpace(N, family='F', **kw):
        if family not in ('F', 'fourier', 'Fourier'):
            raise Unsupported('family %r' % (family,))
        return Basis1D(N, 'F', **kw)

    def TensorProductSpace(comm, bases, **kw):
        if len(bases) != U.dim:
            raise ContractFailure('wrong number of bases')
        return TPS(U, comm, bases, **{k: v for k, v in kw.items() if k in ('dtype',)})

    shf = Fake('shenfun', FunctionSpace=FunctionSpace, TensorProductSpace=TensorProductSpace,
               VectorSpace=lambda T: VectorTPS(T, U.dim), CompositeSpace=lambda l: VectorTPS(l[0], len(l)),
               VectorTensorProductSpace=lambda T: VectorTPS(T, U.dim),
               Array=Array, Function=Function, CachedArrayDict=Work, ShenfunFile=_Missing('ShenfunFile'))
    return base_fakes(shf)


def base_fakes(shf, extra=None):
    d = {
        'numpy': NP,
        'mpi4py': Fake('mpi4py', MPI=_MPI),
        'shenfun': shf,
        'mpi4py_fft': Fake('mpi4py_fft'), 'mpi4py_fft.fftw': Fake('mpi4py_fft.fftw'),
        'numba': Fake('numba', jit=_jit, njit=_jit, float64=_Missing('float64')),
        'h5py': Fake('h5py'),
        'numexpr': None,
    }
    del d['numexpr']
    d.update(extra or {})
    return d


def _jit(*a, **k):
    if len(a) == 1 and callable(a[0]) and not k:
        return a[0]
    return lambda f: f


def _wavenumber(self, a, s, scaled, elim, gen=None):
    gen = self.gen if gen is None else gen
    if not scaled:
        gen = 0                 # integer wavenumbers do not depend on the domain
    key = ('wn', a, s, scaled, elim) + ((gen,) if gen else ())
    lab = 'k%d%s%s%s' % (a, '' if scaled else 'i', 'e' if elim else '', "'"*gen)
    return poly.atom(key, lab, site=s, col=False)


Universe.wavenumber = _wavenumber
