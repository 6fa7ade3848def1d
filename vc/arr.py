"""Symbolic arrays: numpy-protocol arrays whose grid dimensions are a finite set of *generic* grid points.

An `SArr` has concrete component dimensions (3, 9, ...) and symbolic grid dimensions.  `val` is a numpy object
array of shape comps + (npts,) holding a Poly per component and generic point, so element-wise code, component
views and in-place updates are executed by numpy itself; explicit loops over a grid dimension run their body
once per generic point (the loop rule for iterations that touch only their own index, which is checked).
"""
import numbers
import numpy as _np
from . import poly, sym
from .poly import Poly, Undefined
from .sym import Unsupported, BoundsError, ContractFailure, SBool, ST


class Grid:
    """kind 'spec' | 'phys'; points are site names; axes are numbered 0..n-1; `wall` is the wall-normal axis."""

    def __init__(self, name, kind, naxes, labels, wall=None):
        self.name, self.kind, self.n, self.wall = name, kind, naxes, wall
        self.sites = [name + ':' + l for l in labels]
        self.labels = list(labels)
        self.dims = [SymDim(self, a) for a in range(naxes)]

    def __repr__(self):
        return 'Grid(%s)' % self.name


class SymDim(Poly):
    """The extent of a grid axis: an integer >= 1 about which nothing else is known."""
    __slots__ = ('grid', 'axis')

    def __init__(self, grid, axis):
        self.grid, self.axis = grid, axis
        p = poly.atom(('dim', grid.name, axis), 'n_%s%d' % (grid.name, axis), kind='int', info=('ge1',))
        Poly.__init__(self, p.t)

    def __repr__(self):
        return 'n_%s%d' % (self.grid.name, self.axis)

    def __hash__(self):
        return Poly.__hash__(self)

    def __reduce__(self):
        raise Unsupported('pickle')


class Idx:
    """The loop index of a generic iteration over a grid axis, at generic point number `pt`."""

    def __init__(self, grid, axis, pt, lo=0):
        self.grid, self.axis, self.pt = grid, axis, pt

    def __repr__(self):
        return 'Idx(%s,%d,%s)' % (self.grid.name, self.axis, self.grid.labels[self.pt])

    def _no(self, *a):
        raise Unsupported('arithmetic on a grid index')
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __mod__ = __floordiv__ = __eq__ = __lt__ = \
        __le__ = __gt__ = __ge__ = __bool__ = __index__ = __int__ = __neg__ = _no
    __hash__ = object.__hash__


CUR = []        # stack of (grid, pt) for nested generic loops


def generic_range(dim):
    g = dim.grid
    for gg, pt in CUR:
        if gg is g:
            yield Idx(g, dim.axis, pt)
            return
    for pt in range(len(g.sites)):
        CUR.append((g, pt))
        try:
            yield Idx(g, dim.axis, pt)
        finally:
            CUR.pop()


def is_real_dtype(dt):
    return _np.dtype(dt).kind in 'fiub'


def obj(x):
    """Anything scalar -> Poly/SBool for storage in an object array."""
    if isinstance(x, (Poly, SBool)):
        return x
    return Poly.of(x)


FULL = slice(None)


class SArr:
    __array_priority__ = 500

    def __init__(self, val, grid, gax, pts, dtype, ncomp=None):
        self.val = val
        self.grid = grid
        self.gax = gax          # per grid dimension: (axis, full?)
        self.pts = pts          # generic point numbers present
        self.dtype = _np.dtype(dtype)

    # ---------------------------------------------------------------- construction
    @staticmethod
    def full(grid, comps, dtype, fill=0):
        v = _np.empty(tuple(comps) + (len(grid.sites),), dtype=object)
        v[...] = obj(fill)
        return SArr(v, grid, tuple((a, True) for a in range(grid.n)), tuple(range(len(grid.sites))), dtype)

    @staticmethod
    def named(name, grid, comps=(), dtype=complex, **kw):
        """A field of unconstrained values."""
        a = SArr.full(grid, comps, dtype)
        cx = _np.dtype(dtype).kind == 'c'
        for ix in _np.ndindex(a.val.shape):
            s = grid.sites[ix[-1]]
            lab = name + (''.join('%d' % i for i in ix[:-1])) + '@' + grid.labels[ix[-1]]
            a.val[ix] = poly.atom(('field', name, ix[:-1], s), lab, complex=cx, site=s, **kw)
        return a

    def new(self, val, dtype, grid=None, gax=None, pts=None):
        return SArr(val, grid or self.grid, gax if gax is not None else self.gax,
                    pts if pts is not None else self.pts, dtype)

    # ---------------------------------------------------------------- geometry
    @property
    def comps(self):
        return self.val.shape[:-1]

    @property
    def shape(self):
        return tuple(int(c) for c in self.comps) + tuple(self.grid.dims[a] if f else 1 for a, f in self.gax)

    @property
    def ndim(self):
        return len(self.comps) + len(self.gax)

    def __len__(self):
        s = self.shape[0]
        if isinstance(s, SymDim):
            raise Unsupported('len() of a grid dimension')
        return s

    @property
    def size(self):
        p = Poly.of(1)
        for s in self.shape:
            p = p*s
        return p

    def __iter__(self):
        if not self.comps:
            raise Unsupported('iteration over a grid dimension')
        return iter([self[i] for i in range(self.comps[0])])

    def __repr__(self):
        return 'SArr%r@%s' % (self.shape, self.grid.name)

    def __hash__(self):
        return id(self)

    def __bool__(self):
        raise Unsupported('truth value of an array')

    def sites(self):
        return [self.grid.sites[p] for p in self.pts]

    # ---------------------------------------------------------------- indexing
    def _split(self, key):
        """-> (component key, per grid dim key)"""
        if not isinstance(key, tuple):
            key = (key,)
        if any(isinstance(k, (list, _np.ndarray)) for k in key) and not all(
                isinstance(k, _np.ndarray) and k.dtype == object and False for k in key):
            raise Unsupported('advanced indexing')
        nd = self.ndim
        n = sum(1 for k in key if k is not None and k is not Ellipsis)
        if n > nd:
            raise BoundsError('too many indices (%d) for a rank-%d array' % (n, nd))
        if any(k is Ellipsis for k in key):
            i = [j for j, k in enumerate(key) if k is Ellipsis][0]
            key = key[:i] + (FULL,)*(nd-n) + key[i+1:]
        else:
            key = key + (FULL,)*(nd-n)
        if any(k is None for k in key):
            raise Unsupported('newaxis')
        nc = len(self.comps)
        ck = []
        for d, k in zip(self.comps, key[:nc]):
            if isinstance(k, Idx):
                raise BoundsError('component axis of extent %d indexed by %r' % (d, k))
            if isinstance(k, Poly):
                k = int(k)
            if isinstance(k, numbers.Integral) and not -d <= k < d:
                raise BoundsError('component index %d out of range for extent %d' % (k, d))
            if isinstance(k, slice):
                k = slice(*(None if x is None else int(x) for x in (k.start, k.stop, k.step)))
            ck.append(k)
        return tuple(ck), key[nc:]

    def _locate(self, key):
        """-> (val key, remaining gax, pts, scalar?)"""
        ck, gk = self._split(key)
        keep, idxs, zeros = [], [], []
        for (ax, f), k in zip(self.gax, gk):
            if isinstance(k, slice):
                if k == FULL or (not f and k in (slice(0, 1), slice(0, None))) or (k == slice(0, None)):
                    keep.append((ax, f))
                elif isinstance(k.stop, SymDim) and k.stop.grid is self.grid and k.stop.axis == ax \
                        and k.start in (None, 0) and k.step in (None, 1):
                    keep.append((ax, f))
                else:
                    raise Unsupported('partial slice %r of a grid axis' % (k,))
            elif isinstance(k, Idx):
                if not f:
                    raise BoundsError('axis %d has extent 1 but is indexed by a loop variable running over the '
                                      'whole grid axis' % ax)
                if k.grid is not self.grid and k.grid.n == self.grid.n:
                    raise BoundsError('array on grid %s indexed by a loop over grid %s' % (self.grid.name, k.grid.name))
                if k.axis != ax:
                    raise BoundsError('grid axis %d indexed by the loop variable of grid axis %d' % (ax, k.axis))
                idxs.append(k)
            else:
                k = int(k) if not isinstance(k, numbers.Integral) else k
                if not f:
                    if k not in (0, -1):
                        raise BoundsError('index %d on an axis of extent 1' % k)
                else:
                    zeros.append((ax, k))
        scalar = not keep
        pts = self.pts
        if idxs:
            p = {k.pt for k in idxs}
            if len(p) > 1:
                raise Unsupported('mixed generic points')
            pt = p.pop()
            if zeros:
                raise Unsupported('fixed index next to a generic one')
            if pt not in pts:
                raise BoundsError('point outside this array')
            if not scalar and not all((not f) for a, f in keep):
                # Idx on some axes, slices on others: the generic line through the point
                fullk = [a for a, f in keep if f]
                if fullk and self.grid.wall not in fullk:
                    raise Unsupported('line access')
            j = pts.index(pt)
            return ck + ((j,) if scalar else (slice(j, j+1),)), tuple(keep), (pt,), scalar
        if zeros:
            fullax = {a for a, f in self.gax if f}
            need = fullax - {self.grid.wall} if self.grid.wall is not None else fullax
            got = {a for a, k in zeros}
            if any(k != 0 for a, k in zeros):
                raise Unsupported('fixed grid index %r' % (zeros,))
            if got - need:
                raise Unsupported('fixed wall-normal index')
            if need - got:
                raise Unsupported('partially fixed grid index %r' % (zeros,))
            if self.grid.kind != 'spec' or self.grid.labels[0] not in 'zf':
                raise Unsupported('index 0 on a grid without a first mode')
            zp = 0          # the first local mode: 'z' where it is the mean mode, 'f' on other processes
            if zp not in pts:
                raise Unsupported('first mode of an array at other points')
            j = pts.index(zp)
            return ck + ((j,) if scalar else (slice(j, j+1),)), tuple(keep), (zp,), scalar
        if scalar:
            # all grid dims had extent one
            return ck + (FULL,), (), pts, None
        return ck + (FULL,), tuple(keep), pts, False

    def _wall_index(self, key):
        """(component key, entry number) if the key selects one entry of every column."""
        if getattr(self.grid, 'lines', None) is None or isinstance(key, SArr):
            return None
        ck, gk = self._split(key)
        at = [j for j, (ax, f) in enumerate(self.gax) if ax == self.grid.wall and f]
        if not at or not isinstance(gk[at[0]], numbers.Integral) or len(self.gax) == 1:
            return None
        if any(not (isinstance(k, slice) and k == FULL) for j, k in enumerate(gk) if j != at[0]):
            return None
        return ck, int(gk[at[0]]), at[0]

    def __getitem__(self, key):
        if isinstance(key, SArr):
            raise Unsupported('boolean-mask indexing')
        if isinstance(key, tuple) and any(k is None for k in key):
            return self._newaxis(key)
        wi = self._wall_index(key)
        if wi is not None:
            ck, i, j = wi
            sub = self.val[ck + (FULL,)]
            v = _np.empty(sub.shape, dtype=object)
            v.reshape(-1)[:] = self.grid.lines.get(SArr(sub, self.grid, self.gax, self.pts, self.dtype), i)
            return SArr(v, self.grid, self.gax[:j] + self.gax[j+1:], self.pts, self.dtype)
        vk, keep, pts, scalar = self._locate(key)
        v = self.val[vk]
        if scalar:
            if not isinstance(v, _np.ndarray):
                return v
            return v.copy()          # component vector at one point
        if scalar is None:
            raise Unsupported('scalar access to an array without full axes')
        return self.view_of(v, keep, pts)

    def view_of(self, v, keep, pts):
        return SArr(v, self.grid, keep, pts, self.dtype)

    def _newaxis(self, key):
        at = [i for i, k in enumerate(key) if k is None]
        rest = tuple(k for k in key if k is not None)
        r = self[rest] if rest else self
        miss = [a for a in range(self.grid.n) if a not in [x for x, f in r.gax]]
        j = at[0] - len(r.comps)
        if len(at) != 1 or len(miss) != 1 or j != miss[0] or any(isinstance(k, numbers.Integral) for k in rest):
            raise Unsupported('newaxis')
        return SArr(r.val, r.grid, r.gax[:j] + ((miss[0], False),) + r.gax[j:], r.pts, r.dtype)

    def __setitem__(self, key, x):
        if isinstance(key, SArr):
            return self._mask_set(key, x)
        wi = self._wall_index(key)
        if wi is not None:
            ck, i, j = wi
            sub = self.val[ck + (FULL,)]
            tgt = SArr(sub, self.grid, self.gax, self.pts, self.dtype)
            red = SArr(sub, self.grid, self.gax[:j] + self.gax[j+1:], self.pts, self.dtype)
            x = _np.broadcast_to(_np.asarray(red._coerce(x, self.pts), dtype=object), sub.shape)
            self.grid.lines.set(tgt, i, x)
            return
        vk, keep, pts, scalar = self._locate(key)
        target = self.val[vk]
        x = self._coerce(x, pts)
        self._check_dtype(x)
        if scalar and not isinstance(target, _np.ndarray):
            if isinstance(x, _np.ndarray):
                if x.size != 1:
                    raise ContractFailure('setting an element with a sequence')
                x = x.reshape(-1)[0]
            self.val[vk] = x
        else:
            self.val[vk] = x

    def _mask_set(self, key, x):
        if key.val.shape[-1] != self.val.shape[-1]:
            raise Unsupported('mask of another grid')
        x = self._coerce(x, self.pts)
        self._check_dtype(x)
        if isinstance(x, _np.ndarray):
            raise Unsupported('masked assignment of an array')
        kv = _np.broadcast_to(key.val, self.val.shape) if key.val.ndim == self.val.ndim else None
        if kv is None:
            # numpy: the mask indexes the leading axes
            raise Unsupported('mask rank')
        for ix in _np.ndindex(self.val.shape):
            if bool(kv[ix]):
                self.val[ix] = x

    def _coerce(self, x, pts):
        if isinstance(x, SArr):
            return self._aligned(x, pts)
        if isinstance(x, _np.ndarray):
            if x.ndim == 0 or x.size == 1:
                return obj(x.reshape(-1)[0])
            if x.dtype == object and x.ndim == len(self.comps):
                return x
            raise Unsupported('numpy array stored into a symbolic array')
        if isinstance(x, (list, tuple)):
            raise Unsupported('sequence stored into a symbolic array')
        return obj(x)

    def _aligned(self, x, pts):
        if x.grid is not self.grid and x.grid.sites != self.grid.sites:
            raise ContractFailure('shape mismatch: grid %s against grid %s' % (self.grid.name, x.grid.name))
        if tuple(x.pts) == tuple(pts):
            return x.val
        if set(pts) <= set(x.pts) and not any(f for a, f in x.gax if a != self.grid.wall):
            return x.val[..., [x.pts.index(p) for p in pts]]
        if len(x.pts) == len(pts):
            raise Unsupported('arrays at different points')
        raise Unsupported('arrays on different point sets')

    def _check_dtype(self, x):
        if self.dtype.kind == 'c':
            return
        for p in (x.reshape(-1) if isinstance(x, _np.ndarray) else [x]):
            if isinstance(p, Poly) and not p.is_real():
                raise ContractFailure('complex value written into a real array')

    # ---------------------------------------------------------------- numpy protocol
    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        if method not in ('__call__', 'reduce'):
            raise Unsupported('ufunc.%s' % method)
        if method == 'reduce':
            if ufunc is _np.add:
                return self.sum(kw.get('axis', 0), out=out[0] if out else None)
            raise Unsupported('%s.reduce' % ufunc.__name__)
        cond = kw.pop('where', True)
        for k in kw:
            if k not in ('dtype', 'casting'):
                raise Unsupported('ufunc keyword %s' % k)
        if cond is not True and not (isinstance(cond, SArr) and out and isinstance(out[0], SArr)):
            raise Unsupported('ufunc keyword where')
        arrs = [x for x in inputs if isinstance(x, SArr)]
        base = max(arrs, key=lambda a: (len(a.gax), sum(f for _, f in a.gax), len(a.pts)))
        # an array over fewer points (zero-mode column) fixes the point set
        pts = min((a.pts for a in arrs), key=len)
        vals = []
        for x in inputs:
            if isinstance(x, SArr):
                if x.grid is not base.grid and x.grid.sites != base.grid.sites:
                    raise ContractFailure('operands on different grids: %s, %s' % (x.grid.name, base.grid.name))
                if len(x.gax) != len(base.gax):
                    raise Unsupported('operands of different grid rank')
                vals.append(x.val if tuple(x.pts) == tuple(pts) else base._aligned(x, pts))
            elif isinstance(x, (list, tuple, str, dict)) or x is None:
                raise ContractFailure('array combined with %s' % type(x).__name__)
            elif isinstance(x, _np.ndarray) and x.ndim and x.size > 1:
                raise Unsupported('numpy array combined with a symbolic array')
            elif isinstance(x, _np.ndarray):
                vals.append(_np.array(obj(x.reshape(-1)[0]), dtype=object))
            else:
                o = _np.empty((), dtype=object)
                o[()] = obj(x)
                vals.append(o)
        name = ufunc.__name__
        fn = UF.get(name)
        if fn is None:
            raise Unsupported('ufunc %s' % name)
        nin = len(vals)
        bv = _np.broadcast_arrays(*vals) if nin > 1 else vals
        r = _np.empty(bv[0].shape, dtype=object)
        if cond is not True:
            r = _np.empty(_np.broadcast_shapes(out[0].val.shape, r.shape), dtype=object)
            bv = [_np.broadcast_to(v, r.shape) for v in bv]
            cv = _np.broadcast_to(out[0]._aligned(cond, pts), r.shape)
            old = _np.broadcast_to(out[0].val, r.shape)
            if tuple(out[0].pts) != tuple(pts):
                raise Unsupported('where at other points')
        for ix in _np.ndindex(r.shape):
            r[ix] = fn(*[v[ix] for v in bv]) if cond is True or bool(cv[ix]) else old[ix]
        # resulting dims: an axis is full if any operand has it full
        gax = tuple((a, any(x.gax[j][1] for x in arrs if len(x.gax) == len(base.gax)))
                    for j, (a, f) in enumerate(base.gax))
        if name in ('equal', 'not_equal', 'less', 'less_equal', 'greater', 'greater_equal', 'logical_and',
                    'logical_or', 'logical_not', 'isnan', 'isfinite'):
            dt = _np.dtype(bool)
        elif name in ('absolute',) and arrs:
            dt = _np.dtype('float64')
        else:
            cx = any((x.dtype.kind == 'c') if isinstance(x, SArr) else
                     (not x.is_real() if isinstance(x, Poly) else _np.iscomplexobj(x)) for x in inputs)
            dt = _np.dtype('complex128' if cx else 'float64')
        if out:
            o = out[0]
            if not isinstance(o, SArr):
                raise Unsupported('symbolic result stored in a numpy array')
            if dt.kind == 'c' and o.dtype.kind != 'c':
                raise ContractFailure('cannot store a complex result in a real array')
            if tuple(o.pts) != tuple(pts):
                raise Unsupported('in-place on other points')
            if o.grid.sites != base.grid.sites:
                raise ContractFailure('in-place operation between grids %s and %s' % (o.grid.name, base.grid.name))
            for j, (a, f) in enumerate(o.gax):
                if not f and gax[j][1]:
                    raise ContractFailure('in-place result does not fit the broadcast axes')
            if _np.broadcast_shapes(o.val.shape, r.shape) != o.val.shape:
                raise ContractFailure('in-place result does not fit')
            o.val[...] = r
            return o
        return SArr(r, base.grid, gax, pts, dt)

    def __array_function__(self, func, types, args, kwargs):
        f = FN.get(func.__name__)
        if f is None:
            raise Unsupported('numpy.%s on a symbolic array' % func.__name__)
        return f(*args, **kwargs)

    # ---------------------------------------------------------------- operators
    def _call(self, uf, *a, **k):
        return self.__array_ufunc__(uf, '__call__', *a, **k)

    def __add__(self, o): return self._call(_np.add, self, o)
    def __radd__(self, o): return self._call(_np.add, o, self)
    def __iadd__(self, o): return self._call(_np.add, self, o, out=(self,))
    def __sub__(self, o): return self._call(_np.subtract, self, o)
    def __rsub__(self, o): return self._call(_np.subtract, o, self)
    def __isub__(self, o): return self._call(_np.subtract, self, o, out=(self,))
    def __mul__(self, o): return self._call(_np.multiply, self, o)
    def __rmul__(self, o): return self._call(_np.multiply, o, self)
    def __imul__(self, o): return self._call(_np.multiply, self, o, out=(self,))
    def __truediv__(self, o): return self._call(_np.true_divide, self, o)
    def __rtruediv__(self, o): return self._call(_np.true_divide, o, self)
    def __itruediv__(self, o): return self._call(_np.true_divide, self, o, out=(self,))
    def __pow__(self, o): return self._call(_np.power, self, o)
    def __neg__(self): return self._call(_np.negative, self)
    def __pos__(self): return self
    def __abs__(self): return self._call(_np.absolute, self)
    def __eq__(self, o): return self._call(_np.equal, self, o)
    def __ne__(self, o): return self._call(_np.not_equal, self, o)
    def __lt__(self, o): return self._call(_np.less, self, o)
    def __le__(self, o): return self._call(_np.less_equal, self, o)
    def __gt__(self, o): return self._call(_np.greater, self, o)
    def __ge__(self, o): return self._call(_np.greater_equal, self, o)
    def __and__(self, o): return self._call(_np.bitwise_and, self, o)
    def __or__(self, o): return self._call(_np.bitwise_or, self, o)
    def __invert__(self): return self._call(_np.logical_not, self)

    # ---------------------------------------------------------------- methods
    def sum(self, axis=None, out=None, **kw):
        if axis is None:
            axes = tuple(range(self.ndim))
        else:
            axes = axis if isinstance(axis, tuple) else (axis,)
        axes = tuple(a % self.ndim for a in axes)
        nc = len(self.comps)
        v = self.val
        cax = tuple(a for a in axes if a < nc)
        gx = [a for a in axes if a >= nc]
        if cax:
            r = v
            for a in sorted(cax, reverse=True):
                acc = None
                for k in range(r.shape[a]):
                    t = _np.take(r, k, axis=a)
                    acc = t if acc is None else acc + t
                r = acc
            v = r
        if gx:
            if len(gx) != len(self.gax) or not all(f for _, f in self.gax):
                raise Unsupported('sum over part of the grid')
            n = Poly.of(1)
            for d in self.grid.dims:
                n = n*d
            if v.ndim == 1:
                r = poly.gsum(list(v), n)
                if out is not None:
                    raise Unsupported('sum with an output argument')
                return r
            r = _np.empty(v.shape[:-1], dtype=object)
            for ix in _np.ndindex(r.shape):
                r[ix] = poly.gsum(list(v[ix]), n)
            return r
        res = self.new(_np.array(v, dtype=object), self.dtype)
        if out is not None:
            out[...] = res
            return out
        return res

    def fill(self, x):
        self.val[...] = self._coerce(x, self.pts)

    def copy(self, order=None):
        return self.like(self.val.copy())

    def like(self, val):
        return SArr(val, self.grid, self.gax, self.pts, self.dtype)

    def astype(self, dt, *a, **k):
        r = self.like(self.val.copy())
        r.dtype = _np.dtype(dt)
        r._check_dtype(r.val)
        return r

    def view(self, *a):
        return SArr(self.val, self.grid, self.gax, self.pts, self.dtype)

    def conj(self):
        return self._map(lambda p: p.conj())
    conjugate = conj

    def _map(self, f, dtype=None):
        r = _np.empty(self.val.shape, dtype=object)
        for ix in _np.ndindex(r.shape):
            r[ix] = f(self.val[ix])
        return SArr(r, self.grid, self.gax, self.pts, dtype or self.dtype)

    @property
    def real(self):
        return self._map(lambda p: p.real, 'float64')

    @real.setter
    def real(self, x):
        self[...] = x + 1j*self.imag

    @property
    def imag(self):
        return self._map(lambda p: p.imag, 'float64')

    @imag.setter
    def imag(self, x):
        self[...] = self.real + 1j*x

    def any(self, axis=None, **k):
        if axis is not None or k:
            raise Unsupported('any along an axis')
        return not self._none([_truth(p) for p in self.val.reshape(-1)])

    def all(self, axis=None, **k):
        if axis is not None or k:
            raise Unsupported('all along an axis')
        return self._none([not t if isinstance(t, bool) else ~t for t in (_truth(p) for p in self.val.reshape(-1))])

    def _none(self, ts):
        """Is a truth value false everywhere?  Two paths unless the hypotheses at the generic points settle it: false at
        every point (so at the generic ones), or true somewhere (which says nothing about the generic points)."""
        if any(t is True for t in ts):
            return False
        ts = [t for t in ts if t is not False]
        if not ts:
            return True
        if all(sym.check([t.z], t.polys)[0] == sym.z3.unsat for t in ts):
            return True
        if any(sym.check([sym.z3.Not(t.z)], t.polys)[0] == sym.z3.unsat for t in ts):
            return False
        if sym.choose(2, 'over the grid (%s): true nowhere, or somewhere' % ts[0].text) == 0:
            for t in ts:
                sym.assume(~t)
            return True
        return False

    def max(self, axis=None, **k):
        return self._extreme('gmax', axis, k)

    def min(self, axis=None, **k):
        return self._extreme('gmin', axis, k)

    def _extreme(self, name, axis, k):
        """Largest or smallest value over the components and the whole grid: a number bounding every value."""
        if axis is not None or any(v is not None for v in k.values()) or not self.gax or not all(f for _, f in self.gax):
            raise Unsupported('max over part of an array')
        vals = [Poly.of(p) for p in self.val.reshape(-1)]
        if any(not p.is_real() for p in vals):
            raise Unsupported('order of complex values')
        c = [p for p in vals if p.is_const()]
        if len(c) == len(vals) and all(p.same(c[0]) for p in c):
            return c[0]
        return poly.gext(name, vals)

    @property
    def flat(self):
        raise Unsupported('flat')

    @property
    def flags(self):
        class F:
            c_contiguous = True
            contiguous = True
        return F()

    def __array__(self, *a, **k):
        raise Unsupported('conversion of a symbolic array to a numpy array')


def _truth(p):
    return p if isinstance(p, (bool, sym.SBool)) else bool(p) if isinstance(p, _np.bool_) else sym.compare('!=', p, 0)


def _cmp(op):
    return lambda a, b: sym.compare(op, a, b)


def _minmax(name):
    def f(a, b):
        return poly.opaque(name, Poly.of(a), Poly.of(b))
    return f


UF = {
    'add': lambda a, b: a+b, 'subtract': lambda a, b: a-b, 'multiply': lambda a, b: a*b,
    'true_divide': lambda a, b: a/b, 'divide': lambda a, b: a/b, 'negative': lambda a: -a, 'positive': lambda a: a,
    'power': lambda a, b: Poly.of(a)**b, 'float_power': lambda a, b: Poly.of(a)**b, 'square': lambda a: a*a,
    'absolute': lambda a: abs(a), 'sqrt': lambda a: a.sqrt(), 'conjugate': lambda a: a.conj(),
    'equal': _cmp('=='), 'not_equal': _cmp('!='), 'less': _cmp('<'), 'less_equal': _cmp('<='),
    'greater': _cmp('>'), 'greater_equal': _cmp('>='), 'maximum': _minmax('max'), 'minimum': _minmax('min'),
    'logical_not': lambda a: ~sym.as_sbool(a), 'invert': lambda a: ~sym.as_sbool(a),
    'bitwise_and': lambda a, b: sym.as_sbool(a) & b, 'logical_and': lambda a, b: sym.as_sbool(a) & b,
    'bitwise_or': lambda a, b: sym.as_sbool(a) | b, 'logical_or': lambda a, b: sym.as_sbool(a) | b,
    'reciprocal': lambda a: 1/a,
}


def _np_sum(a, axis=None, dtype=None, out=None, **kw):
    if not isinstance(a, SArr):
        if isinstance(a, (list, tuple)) and axis == 0:
            acc = a[0]
            for x in a[1:]:
                acc = acc + x
            if out is not None:
                out[...] = acc
                return out
            return acc
        raise Unsupported('np.sum')
    return a.sum(axis, out=out)


def _np_where(c, x=None, y=None):
    if x is None:
        raise Unsupported('one-argument where')
    arrs = [a for a in (c, x, y) if isinstance(a, SArr)]
    base = max(arrs, key=lambda a: (len(a.gax), a.val.ndim))
    vs = []
    for a in (c, x, y):
        if isinstance(a, SArr):
            vs.append(base._aligned(a, base.pts))
        else:
            o = _np.empty((), dtype=object)
            o[()] = obj(a) if not isinstance(a, (bool, SBool)) else a
            vs.append(o)
    b = _np.broadcast_arrays(*vs)
    r = _np.empty(b[0].shape, dtype=object)
    for ix in _np.ndindex(r.shape):
        r[ix] = b[1][ix] if bool(b[0][ix]) else b[2][ix]
    cx = any(isinstance(a, SArr) and a.dtype.kind == 'c' for a in (x, y)) or isinstance(x, complex) or isinstance(y, complex)
    return SArr(r, base.grid, base.gax, base.pts, 'complex128' if cx else 'float64')


def _np_zeros_like(a, dtype=None, **kw):
    r = a.like(_np.empty(a.val.shape, dtype=object))
    r.val[...] = Poly.of(0)
    if dtype is not None:
        r.dtype = _np.dtype(dtype)
    return r


def _np_ones_like(a, dtype=None, **kw):
    r = _np_zeros_like(a, dtype)
    r.val[...] = Poly.of(1)
    return r


def _np_copyto(dst, src, **kw):
    dst[...] = src


def _np_einsum(spec, *ops, **kw):
    spec = spec.replace(' ', '')
    ins, out = spec.split('->')
    ins = ins.split(',')
    for o in ops:
        if not isinstance(o, SArr):
            raise Unsupported('einsum operands')
    g = ops[0].grid
    ng = g.n
    tails = {s[-ng:] for s in ins} | {out[-ng:]}
    if '...' in spec:
        ins = [s.replace('...', '') for s in ins]
        out = out.replace('...', '')
    elif len(tails) == 1:
        ins = [s[:-ng] for s in ins]
        out = out[:-ng]
    else:
        raise Unsupported('einsum over grid axes')
    dims = {}
    for s, o in zip(ins, ops):
        if len(s) != len(o.comps):
            raise ContractFailure('einsum rank')
        for ch, d in zip(s, o.comps):
            dims[ch] = d
    letters = sorted(dims)
    r = _np.empty(tuple(dims[c] for c in out) + (len(ops[0].pts),), dtype=object)
    r[...] = Poly.of(0)
    for combo in _np.ndindex(tuple(dims[l] for l in letters)):
        e = dict(zip(letters, combo))
        t = Poly.of(1)
        for s, o in zip(ins, ops):
            t = o.val[tuple(e[c] for c in s)]*t
        k = tuple(e[c] for c in out)
        r[k] = r[k] + t
    cx = any(o.dtype.kind == 'c' for o in ops)
    full = tuple((a, True) for a in range(ng))
    dst = kw.pop('out', None)
    if set(kw) - {'optimize'}:
        raise Unsupported('einsum keywords')
    if dst is not None:
        dst[...] = SArr(r, g, full, ops[0].pts, 'complex128' if cx else 'float64')
        return dst
    return SArr(r, g, full, ops[0].pts, 'complex128' if cx else 'float64')


def _np_cross(a, b, axis=None, axisa=-1, axisb=-1, axisc=-1):
    if axis != 0 and not (axisa == axisb == axisc == 0):
        raise Unsupported('np.cross axis')
    r = a.like(_np.empty(a.val.shape, dtype=object))
    for i in range(3):
        j, k = (i+1) % 3, (i+2) % 3
        r.val[i] = (a[j]*b[k]-a[k]*b[j]).val
    r.dtype = _np.result_type(a.dtype, b.dtype)
    return r


def _np_stack(arrs, axis=0, **kw):
    if axis != 0:
        raise Unsupported('stack axis')
    arrs = list(arrs)
    v = _np.stack([a.val for a in arrs])
    return SArr(v, arrs[0].grid, arrs[0].gax, arrs[0].pts, _np.result_type(*[a.dtype for a in arrs]))


FN = {
    'sum': _np_sum, 'where': _np_where, 'zeros_like': _np_zeros_like, 'empty_like': _np_zeros_like,
    'ones_like': _np_ones_like, 'copyto': _np_copyto, 'einsum': _np_einsum, 'cross': _np_cross,
    'copy': lambda a, **k: a.copy(), 'real': lambda a: a.real, 'imag': lambda a: a.imag,
    'any': lambda a, axis=None, **k: a.any(axis, **k), 'all': lambda a, axis=None, **k: a.all(axis, **k), 'stack': _np_stack,
    'max': lambda a, axis=None, **k: a.max(axis, **k), 'min': lambda a, axis=None, **k: a.min(axis, **k),
    'amax': lambda a, axis=None, **k: a.max(axis, **k), 'amin': lambda a, axis=None, **k: a.min(axis, **k),
    'shape': lambda a: a.shape, 'ndim': lambda a: a.ndim,
    'iscomplexobj': lambda a: a.dtype.kind == 'c', 'isrealobj': lambda a: a.dtype.kind != 'c',
    'result_type': lambda *a: _np.result_type(*[x.dtype if isinstance(x, SArr) else x for x in a]),
}


class UFunc:
    """A numpy ufunc that also takes symbolic scalars."""

    def __init__(self, uf):
        self.uf, self.__name__, self.nin = uf, uf.__name__, uf.nin

    def __call__(self, *a, out=None, **kw):
        a, pos = a[:self.nin], a[self.nin:]
        if pos:
            out = pos[0]
        o = out[0] if isinstance(out, tuple) else out
        for x in a + (o,):
            if isinstance(x, SArr):
                return x.__array_ufunc__(self.uf, '__call__', *a, out=None if o is None else (o,), **kw)
        if any(not isinstance(x, (_np.ndarray, _np.generic)) and getattr(x, '__array_ufunc__', self) is None for x in a):
            f = UF.get(self.__name__)
            if f is None or kw or any(isinstance(x, (list, tuple)) for x in a):
                raise Unsupported('ufunc %s of symbolic numbers' % self.__name__)
            r = f(*a)
            if o is None:
                return r
            o[...] = r
            return o
        return self.uf(*a, **kw) if o is None else self.uf(*a, out=o, **kw)

    def __getattr__(self, n):
        return getattr(self.uf, n)


# ------------------------------------------------------------------------------------ numpy module proxy
class NumpyProxy:
    def __init__(self):
        self.__dict__['_np'] = _np
        self.__dict__['__name__'] = 'numpy'

    def __getattr__(self, n):
        v = getattr(_np, n)
        if isinstance(v, _np.ufunc):
            v = self.__dict__[n] = UFunc(v)
        return v

    @staticmethod
    def _alloc(shape, dtype, fill):
        if isinstance(shape, (Poly, int)):
            shape = (shape,)
        shape = tuple(shape)
        k = [i for i, s in enumerate(shape) if isinstance(s, SymDim)]
        if not k:
            if any(isinstance(s, Poly) for s in shape):
                shape = tuple(int(s) for s in shape)
            return None
        g = shape[k[0]].grid
        comps = []
        if g.kind == 'spec' and g.wall is not None and k == [len(shape)-1] and shape[-1].axis == g.wall:
            # one wall-normal column, held at the first local mode
            r = SArr.full(g, [int(x) for x in shape[:-1]], dtype or float, fill)
            return SArr(r.val[..., :1].copy(), g, ((g.wall, True),), (0,), r.dtype)
        rest = list(shape)
        # leading ints are components; trailing grid dims must be the grid's axes in order
        nc = len(shape) - g.n
        if nc < 0:
            raise Unsupported('array over part of a grid')
        comps = [int(x) for x in rest[:nc]]
        gax = []
        for a, s in enumerate(rest[nc:]):
            if isinstance(s, SymDim):
                if s.axis != a:
                    raise Unsupported('permuted grid axes')
                gax.append((a, True))
            elif s == 1:
                gax.append((a, False))
            else:
                raise Unsupported('grid axis of fixed extent')
        r = SArr.full(g, comps, dtype or float, fill)
        r.gax = tuple(gax)
        return r

    def zeros(self, shape, dtype=float, order='C', **kw):
        r = self._alloc(shape, dtype, 0)
        return _np.zeros(shape, dtype) if r is None else r

    def ones(self, shape, dtype=float, order='C', **kw):
        r = self._alloc(shape, dtype, 1)
        return _np.ones(shape, dtype) if r is None else r

    def empty(self, shape, dtype=float, order='C', **kw):
        r = self._alloc(shape, dtype, 0)
        if r is None:
            return _np.empty(shape, dtype)
        garbage(r)
        return r

    def full(self, shape, fill, dtype=None, **kw):
        r = self._alloc(shape, dtype or float, fill)
        return _np.full(shape, fill, dtype) if r is None else r

    def zeros_like(self, a, dtype=None, **kw):
        if isinstance(a, SArr):
            return _np_zeros_like(a, dtype)
        return _np.zeros_like(a, dtype=dtype, **kw)

    def empty_like(self, a, dtype=None, **kw):
        if isinstance(a, SArr):
            return garbage(_np_zeros_like(a, dtype))
        return _np.empty_like(a, dtype=dtype, **kw)

    def array(self, x, dtype=None, **kw):
        if isinstance(x, SArr):
            return x.copy() if dtype is None else x.astype(dtype)
        if isinstance(x, (list, tuple)) and x and all(isinstance(a, SArr) for a in x):
            full = tuple((a, True) for a in range(x[0].grid.n))
            if any(a.gax != x[0].gax for a in x):
                raise ContractFailure('inhomogeneous array')
            return _np_stack(x)
        if isinstance(x, (list, tuple)) and any(isinstance(a, Poly) for a in x):
            r = _np.empty(len(x), dtype=object)
            for i, a in enumerate(x):
                r[i] = Poly.of(a)
            return r
        return _np.array(x, dtype=dtype, **kw)

    def asarray(self, x, dtype=None, **kw):
        return x if isinstance(x, SArr) else _np.asarray(x, dtype=dtype, **kw)

    ascontiguousarray = asarray

    def sum(self, a, axis=None, dtype=None, out=None, **kw):
        if isinstance(a, SArr) or (isinstance(a, (list, tuple)) and a and isinstance(a[0], SArr)):
            return _np_sum(a, axis, out=out)
        return _np.sum(a, axis=axis, out=out)

    def _scalar(self, name, *a):
        if any(isinstance(x, Poly) for x in a) and not any(isinstance(x, SArr) for x in a):
            return UF[name](*a)
        return getattr(_np, name)(*a)

    def abs(self, a, out=None):
        if isinstance(a, Poly):
            return abs(a)
        return _np.abs(a) if out is None else _np.abs(a, out=out)
    absolute = abs

    def sqrt(self, a):
        return a.sqrt() if isinstance(a, Poly) else _np.sqrt(a)

    def isnan(self, a):
        return False if isinstance(a, Poly) else _np.isnan(a)

    def broadcast_to(self, a, shape):
        if isinstance(shape, tuple) and any(isinstance(x, SymDim) for x in shape):
            if isinstance(a, SArr):
                if a.shape == tuple(shape):
                    return a
                raise Unsupported('broadcast_to')
            if isinstance(a, _np.ndarray) and a.size != 1:
                raise Unsupported('broadcast_to of an array')
            return self.full(shape, a.reshape(-1)[0] if isinstance(a, _np.ndarray) else a)
        return _np.broadcast_to(a, shape)

    def where(self, *a):
        if any(isinstance(x, SArr) for x in a):
            return _np_where(*a)
        return _np.where(*a)


class _FloatType:
    pass


NP = NumpyProxy()


def garbage(a, tag=''):
    """Unconstrained (uninitialised) contents."""
    ST.fresh += 1
    cx = a.dtype.kind == 'c'
    for ix in _np.ndindex(a.val.shape):
        s = a.grid.sites[a.pts[ix[-1]]]
        a.val[ix] = poly.atom(('garbage', ST.fresh, ix), 'garbage%d%s' % (ST.fresh, tag), complex=cx, site=s)
    return a
