"""Vectors of symbolic length: a vector is its length and a function of its index."""
from . import poly
from .poly import Poly
from math import gcd
from .sym import compare, assume, choose, PathEnd, Unsupported, ContractFailure, BoundsError
import numpy as np


def P(x):
    return Poly.of(x)


def _integer(d):
    """(gcd of the coefficients, constant, rest/gcd) of an integer-valued normal form, else None."""
    c, g = 0, 0
    for m, v in d.t.items():
        if v[1] != 0 or v[0].denominator != 1 or any(poly.ATOMS[a].kind != 'int' or e < 0 for a, e in m):
            return None
        if m:
            g = gcd(g, int(v[0]))
        else:
            c = int(v[0])
    return g, c, Poly({m: (v[0]/g, v[1]) for m, v in d.t.items() if m}) if g else None


def _least(e):
    """Lower bound from the signs of the atoms, None if there is none."""
    b = 0
    for m, v in e.t.items():
        x = v[0]
        if x < 0:
            return None
        lo = 1
        for a, k in m:
            i = poly.ATOMS[a].info
            if i and i[0] == 'ge1':
                continue
            if i and i[0] == 'ge0':
                lo = 0
                continue
            return None
        b += x*lo
    return b


def decide(op, a, b):
    """Branch on a comparison; comparisons of integers are tightened first."""
    d = P(a)-P(b)
    n = _integer(d)
    if n is None:
        return bool(compare(op, P(a), P(b)))
    g, c, e = n
    if not g:
        return {'<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0, '==': c == 0, '!=': c != 0}[op]
    if op in ('==', '!='):
        if c % g:
            return op == '!='
        if not (decide('>=', e, -c//g) and decide('<=', e, -c//g)):
            return op == '!='
        return op == '=='
    if op in ('>', '<='):
        return decide('>=', a, P(b)+1) == (op == '>')
    if op == '<':
        return not decide('>=', a, b)
    # g e + c >= 0  <=>  e >= ceil(-c/g)
    t = -(c//g)
    lo = _least(e)
    if lo is not None and lo >= t:
        return True
    hi = _least(e*-1)
    if hi is not None and -hi < t:
        return False
    # (not e >= t) is e <= t-1 : keep the tightened form on both sides
    hi = compare('>=', e, P(t))
    if isinstance(hi, bool):
        return hi
    r = bool(hi)
    if not r:
        assume(compare('<=', e, P(t-1)))
    return r


def require(op, a, b):
    """Keep only the paths on which the comparison holds."""
    if not decide(op, a, b):
        raise PathEnd('infeasible')


def split(d, s):
    """(d in s*Z, d/s) for an integer-valued linear d."""
    d = P(d)
    if s == 1:
        return True, d
    c, rest = 0, []
    for m, v in d.t.items():
        f = v[0]
        if v[1] != 0 or f.denominator != 1:
            raise Unsupported('index with non-integer coefficients')
        if not m:
            c = int(f)
        elif int(f) % s:
            raise Unsupported('parity of an index is not determined')
    return c % s == 0, d*P(1)/P(s) if c % s == 0 else None


class Seq:
    """Vector: length and value at an index."""
    __array_ufunc__ = None

    def __init__(self, n, fn, only=None):
        self.n, self.fn, self.only = P(n), fn, only

    def __len__(self):
        raise Unsupported('length of a symbolic vector as a plain number')

    @property
    def shape(self):
        return (self.n,)

    @property
    def size(self):
        return self.n

    ndim = 1
    dtype = np.dtype(float)

    def at(self, i):
        return P(self.fn(P(i)))

    def copy(self):
        f = self.detach().fn
        return Seq(self.n, f, self.only)

    def detach(self):
        return self

    def _bin(self, o, f, keep):
        a = self.detach().fn
        if isinstance(o, Seq):
            o = o.detach()
            if not P(self.n-o.n).same(P(0)):
                raise ContractFailure('vectors of different lengths')
            b = o.fn
            return Seq(self.n, lambda i: f(P(a(i)), P(b(i))), (self.only if self.only is not None else o.only) if keep else (self.only if self.only is not None and o.only is self.only else None))
        if isinstance(o, (int, float, Poly, np.number)):
            return Seq(self.n, lambda i: f(P(a(i)), P(o)), self.only if keep or (isinstance(o, (int, float)) and o == 0) else None)
        return NotImplemented

    def __add__(self, o): return self._bin(o, lambda x, y: x+y, False)
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, lambda x, y: x-y, False)
    def __rsub__(self, o): return self._bin(o, lambda x, y: y-x, False)
    def __mul__(self, o):
        return self._bin(o, lambda x, y: x*y, True)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, Seq):
            only = self.only
            r = self._bin(o, lambda x, y: x*y.inv(), False)
            r.only = only
            return r
        return self._bin(o, lambda x, y: x*y.inv(), True)

    def __rtruediv__(self, o): return self._bin(o, lambda x, y: P(y)*x.inv(), False)
    def __neg__(self): return self*-1

    def __pow__(self, k):
        if isinstance(k, int) and k >= 0:
            a = self.detach().fn
            return Seq(self.n, lambda i: P(a(i))**k, self.only if k else None)
        return NotImplemented

    def _into(self, r):
        if r is NotImplemented:
            return r
        self.fn, self.only = r.fn, r.only
        return self

    def __iadd__(self, o): return self._into(self+o)
    def __isub__(self, o): return self._into(self-o)
    def __imul__(self, o): return self._into(self*o)
    def __itruediv__(self, o): return self._into(self/o)

    def _slice(self, k):
        """(start, step, length) of an increasing slice."""
        st = 1 if k.step is None else k.step
        if not isinstance(st, int) or st < 1:
            raise Unsupported('slice step')

        def bound(b, dflt):
            if b is None:
                return P(dflt)
            b = P(b)
            if decide('<', b, 0):
                b = b+self.n
                return P(0) if decide('<', b, 0) else b
            return P(self.n) if decide('>', b, self.n) else b
        lo, hi = bound(k.start, 0), bound(k.stop, self.n)
        if decide('<', hi, lo):
            hi = lo
        span = hi-lo
        if st == 1:
            return lo, st, span, hi
        # ceil(span/st)
        for r in range(st):
            try:
                ok, q = split(span+r, st)
            except Unsupported:
                raise
            if ok:
                return lo, st, q, hi
        raise Unsupported('slice length')

    def _index(self, k):
        k = P(k)
        if decide('<', k, 0):
            k = k+self.n
        if decide('<', k, 0) or decide('>=', k, self.n):
            raise BoundsError('index %s outside a vector of length %s' % (poly.show(k), poly.show(self.n)))
        return k

    def __getitem__(self, k):
        a = self.fn
        if isinstance(k, (int, Poly, np.integer)):
            return P(a(self._index(k)))
        if k is Ellipsis:
            k = slice(None)
        if isinstance(k, slice):
            lo, st, n, _ = self._slice(k)
            return View(self, lo, st, n)
        raise Unsupported('index %r' % (k,))

    def __setitem__(self, k, v):
        a = self.fn
        only = self.only
        if k is Ellipsis:
            k = slice(None)
        if isinstance(k, (int, Poly, np.integer)):
            k = self._index(k)
            self.fn = lambda i: P(v) if decide('==', i, k) else a(i)
            zero = isinstance(v, (int, float)) and v == 0
            if not zero and not (only is not None and P(only-k).same(P(0))):
                self.only = None
            return
        if not isinstance(k, slice):
            raise Unsupported('index %r' % (k,))
        lo, st, n, hi = self._slice(k)
        zero = isinstance(v, (int, float)) and v == 0
        if isinstance(v, View):
            v = v.detach()
        if isinstance(v, Seq):
            if not P(v.n-n).same(P(0)):
                if not decide('==', v.n, n):
                    raise ContractFailure('cannot put %s values into %s places' % (poly.show(v.n), poly.show(n)))
            b = v.fn
        elif isinstance(v, (int, float, Poly, np.number)):
            b = lambda i: P(v)
        else:
            raise Unsupported('value of a slice assignment')

        def fn(i):
            if decide('<', i, lo) or decide('>=', i, hi):
                return a(i)
            ok, q = split(i-lo, st)
            return b(q) if ok else a(i)
        self.fn = fn
        if not zero:
            self.only = None
            if isinstance(v, Seq) and v.only is not None and st == 1 and not lo.t and P(n-self.n).same(P(0)):
                self.only = v.only


class View(Seq):
    def __init__(self, base, lo, st, n):
        self.base, self.lo, self.st = base, lo, st
        Seq.__init__(self, n, lambda i: base.fn(lo+P(i)*st))
        whole = not lo.t and st == 1 and P(n-base.n).same(P(0))
        self.only = base.only if whole else None

    def detach(self):
        f = self.base.fn
        lo, st = self.lo, self.st
        return Seq(self.n, lambda i: f(lo+P(i)*st), self.only)

    def _into(self, r):
        if r is NotImplemented:
            return r
        if self.st != 1:
            hi = None
            raise Unsupported('in-place arithmetic on a strided part')
        self.base[self.lo:self.lo+self.n] = Seq(r.n, r.fn, r.only)
        return self

    def __setitem__(self, k, v):
        raise Unsupported('assignment to a part of a part')




class Ptr:
    """C pointer into a strided column: element p is element p/st of the vector."""
    __array_ufunc__ = None

    def __init__(self, seq, st):
        self.seq, self.st = seq, st

    def _k(self, p):
        p = P(p)
        q = {}
        (m0, v0), = self.st.t.items()
        (a0, e0), = m0
        for m, v in p.t.items():
            d = dict(m)
            if d.get(a0, 0) != 1:
                raise ContractFailure('offset %s is not a multiple of the stride' % poly.show(p))
            d.pop(a0)
            q[tuple(x for x in m if x[0] != a0)] = v
        q = Poly(q)
        if not (decide('>=', q, 0) and decide('<', q, self.seq.n)):
            raise BoundsError('element %s of a column of %s' % (poly.show(q), poly.show(self.seq.n)))
        return q

    def __getitem__(self, p):
        return self.seq.at(self._k(p))

    def __setitem__(self, p, v):
        self.seq[self._k(p)] = v


class CSeq(Seq):
    """Vector indexed as in C: no wraparound, every index must lie inside."""
    vc_array = True
    dtype = np.dtype(complex)

    def _index(self, k):
        k = P(k)
        if not (decide('>=', k, 0) and decide('<', k, self.n)):
            raise BoundsError('index %s outside a vector of length %s' % (poly.show(k), poly.show(self.n)))
        return k


class Vec(CSeq):
    """std::vector<double>."""
    dtype = np.dtype(float)

    def __init__(self):
        Seq.__init__(self, 0, lambda i: P(0))

    def push_back(self, v):
        k, f = self.n, self.fn
        self.n = self.n+1
        self.fn = lambda i: P(v) if decide('==', i, k) else f(i)

    def resize(self, n):
        old, f = self.n, self.fn
        self.n = P(n)
        self.fn = lambda i: f(i) if decide('<', i, old) else P(0)

    def __len__(self):
        raise Unsupported('length')


def _known(v, label, name, j):
    return poly.opaque('any %s %s' % (label, name), P(j)) if v is None else v


class Loop:
    """Rule for a counted loop: the state at an arbitrary iteration is described by `state`, checked at the start, kept by the body.

    state(i, loc): {name: value} and {id: (vector, function of the index)} when everything before iteration i is done; lo, hi, step are those of
    the code."""

    def __init__(self, V, name, state):
        self.V, self.name, self.state = V, name, state

    def init(self, rng, loc):
        lo, hi, st = (P(0), P(rng[0]), 1) if len(rng) == 1 else (P(rng[0]), P(rng[1]), 1) if len(rng) == 2 else (P(rng[0]), P(rng[1]), int(rng[2]))
        if st not in (1, -1):
            raise Unsupported('step of a counted loop')
        self.lo, self.hi, self.st = lo, hi, st
        self.empty = decide('>=', lo, hi) if st == 1 else decide('<=', lo, hi)
        self.entry = {}
        self.check('at the start', lo, loc, None)

    def done(self, j, i):
        """Iteration j lies before iteration i."""
        if self.st == 1:
            return decide('>=', j, self.lo) and decide('<', j, i)
        return decide('<=', j, self.lo) and decide('>', j, i)

    def before(self, i):
        """The state described when everything before i is done: names, and vectors as functions of the index."""
        return self.state(self, P(i))

    def check(self, when, i, loc, skip):
        names, vecs = self.before(i)
        for vec, f, n in vecs.values():
            if vec not in self.entry:
                self.entry[vec] = vec.fn
        part = choose(len(vecs)+1, 'checked part')        # one path for the names, one per vector
        if not part:
            for n, v in names.items():
                if n not in loc:
                    raise Unsupported('loop %s: no variable %s' % (self.name, n))
                self.V.eq('%s, %s: %s' % (self.name, when, n), P(loc[n]), v)
            return
        for q, (label, (vec, f, n)) in enumerate(vecs.items()):
            if q+1 != part:
                continue
            if callable(n):
                n = n(i)
            if n is not None:
                self.V.true('%s, %s: length of %s' % (self.name, when, label), P(vec.n-n).same(P(0)) or decide('==', vec.n, n))
            j = P(2)*poly.atom(('j', label), 'j', kind='int', info=('ge0',)) + choose(2, 'parity of j')
            g = (i-1 if self.st == 1 else i+1) if when != 'at the start' else i
            which = choose(2, 'last') if when != 'at the start' else 1
            if which == 0:
                jj = g
                if not (decide('>=', jj, 0) and decide('<', jj, vec.n)):
                    continue
            else:
                jj = j
                require('<', j, vec.n)
                if when != 'at the start':
                    require('!=', j, g)
            old = self.entry[vec]
            want = f(jj, old)
            if want is None:                  # an entry the invariant says nothing about
                continue
            self.V.eq('%s, %s: %s' % (self.name, when, label), P(vec.fn(jj)), want)
        raise PathEnd('part checked')

    def havoc(self, loc, names):
        """Enter an arbitrary iteration, or the state after the last one."""
        self.exit = self.empty or choose(2, 'loop %s ends' % self.name)
        if self.exit:
            i = self.lo if self.empty else self.hi
        else:
            if not (decide('>=', self.lo, 0) and decide('>=', self.hi, -1)):
                raise Unsupported('loop over negative numbers')
            h = poly.atom(('ih', self.name), 'h', kind='int', info=('ge0',))
            i = P(2)*h + choose(2, 'parity')
            if self.st == 1:
                require('>=', i, self.lo)
                require('<', i, self.hi)
            else:
                require('<=', i, self.lo)
                require('>', i, self.hi)
        self.i = i
        nm, vecs = self.before(i)
        for label, (vec, f, n) in vecs.items():
            old = self.entry[vec]
            vec.fn = (lambda f, old, label: lambda j: _known(f(P(j), old), label, self.name, j))(f, old, label)
            if callable(n):
                vec.n = P(n(i))
        r = {}
        for x in names:
            if x in nm:
                r[x] = nm[x]
        return r

    def test(self):
        return not self.exit

    def index(self):
        return self.i

    def preserved(self, loc):
        self.check('kept by the body', self.i + self.st, loc, None)
