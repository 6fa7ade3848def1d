"""Polynomials over the Gaussian rationals in interned indeterminates: the value domain of the VC generator.

An indeterminate ("atom") is either real (its own conjugate) or complex (it has a conjugate partner, also an
atom).  Atoms are functions of a grid point ("site") or scalars; `site` is None for scalars.
"""
from fractions import Fraction
import math, sys

sys.setrecursionlimit(20000)


class Atom:
    __slots__ = ('id', 'name', 'conj', 'site', 'nonzero', 'positive', 'kind', 'rel', 'info', 'col', 'fn')

    def __init__(self, name, site=None, nonzero=False, positive=False, kind='real', info=None, col=True):
        self.id = len(ATOMS)
        ATOMS.append(self)
        self.name = name
        self.conj = self
        self.site = site
        self.nonzero = nonzero
        self.positive = positive
        self.kind = kind        # 'real' | 'complex' | 'int'
        self.rel = None         # Poly D for an inverse atom: atom*D == 1
        self.info = info
        self.fn = None          # (function name, argument polys) of an opaque term
        self.col = col          # may vary along the wall-normal direction

    def __repr__(self):
        return self.name


ATOMS = []
TABLE = {}


RESETS = []


def reset():
    ATOMS.clear()
    TABLE.clear()
    _INV.clear()
    for f in RESETS:
        f()


def atom(key, name=None, complex=False, **kw):
    """Interned atom for `key`; returns a Poly."""
    a = TABLE.get(key)
    if a is None:
        name = name or (key if isinstance(key, str) else repr(key))
        a = Atom(name, kind='complex' if complex else kw.pop('kind', 'real'), **kw)
        if complex:
            b = Atom('conj(%s)' % name, kind='complex', **kw)
            a.conj, b.conj = b, a
        TABLE[key] = a
    return Poly({((a.id, 1),): ONE})


# ---------------------------------------------------------------- Gaussian rationals as (re, im) tuples
ONE = (Fraction(1), Fraction(0))
ZERO = (Fraction(0), Fraction(0))


def simplest(x):
    """Simplest rational within a few ulp of the float x (constants such as 1./6. mean 1/6)."""
    if x == int(x):
        return Fraction(int(x))
    f = Fraction(x)
    if f.denominator <= 4096:
        return f
    tol = abs(f)*Fraction(6, 10**16)
    lo, hi = f - tol, f + tol
    neg = hi < 0
    if neg:
        lo, hi = -hi, -lo
    r = _sb(lo, hi)
    return -r if neg else r


def _sb(lo, hi):
    fl = lo.numerator // lo.denominator
    if fl == lo:
        return Fraction(fl)
    if fl + 1 <= hi:
        return Fraction(fl + 1)
    return fl + 1/_sb(1/(hi-fl), 1/(lo-fl))


class Undefined(Exception):
    """An operation the value domain has no meaning for (division by zero, ...)."""


def coef(x):
    """Python / numpy number -> Gaussian rational."""
    if isinstance(x, bool):
        return (Fraction(int(x)), Fraction(0))
    if isinstance(x, int):
        return (Fraction(x), Fraction(0))
    if isinstance(x, Fraction):
        return (x, Fraction(0))
    if isinstance(x, float):
        if math.isnan(x) or math.isinf(x):
            raise Undefined('non-finite constant %r' % x)
        return (simplest(x), Fraction(0))
    if isinstance(x, complex):
        return (coef(float(x.real))[0], coef(float(x.imag))[0])
    if hasattr(x, 'item') and getattr(x, 'ndim', 0) == 0:
        import numpy as np
        if isinstance(x, (np.float32, np.complex64)):
            return _coef32(x)
        return coef(x.item())
    raise TypeError('not a number: %r' % (x,))


def _coef32(x):
    def one(v):
        v = float(v)
        f = Fraction(v)
        if f.denominator <= 4096:
            return f
        tol = abs(f)*Fraction(2, 10**7)
        lo, hi = f-tol, f+tol
        if hi < 0:
            return -_sb(-hi, -lo)
        return _sb(lo, hi)
    return (one(x.real), one(x.imag))


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for a, e in n:
        v = d.get(a, 0) + e
        if v:
            d[a] = v
        else:
            del d[a]
    return tuple(sorted(d.items()))


_INV = {}      # canonical D (frozenset) -> inverse atom


def arrays(f):
    """Element by element over (small, concrete) numpy arrays."""
    def g(self, o):
        if o.__class__ is not Poly and type(o).__module__ == 'numpy' and getattr(o, 'ndim', 0) > 0:
            r = o.astype(object)
            for ix, x in list(_enum(o)):
                r[ix] = f(self, x)
            return r
        return f(self, o)
    return g


def _enum(o):
    import numpy as np
    return np.ndenumerate(o)


class Poly:
    __slots__ = ('t',)
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, terms):
        self.t = terms

    # -- construction
    @staticmethod
    def of(x):
        if isinstance(x, Poly):
            return x
        c = coef(x)
        return Poly({(): c} if c != ZERO else {})

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        return self.t.get((), ZERO)

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return hash(frozenset(self.t.items()))

    # -- arithmetic
    @arrays
    def __add__(self, o):
        if isinstance(o, Deferred):
            return NotImplemented
        try:
            o = Poly.of(o)
        except TypeError:
            return NotImplemented
        d = dict(self.t)
        for m, c in o.t.items():
            p = d.get(m)
            if p is None:
                d[m] = c
            else:
                c = (p[0]+c[0], p[1]+c[1])
                if c == ZERO:
                    del d[m]
                else:
                    d[m] = c
        return Poly(d)
    __radd__ = __add__

    def __neg__(self):
        return Poly({m: (-c[0], -c[1]) for m, c in self.t.items()})

    def __pos__(self):
        return self

    @arrays
    def __sub__(self, o):
        try:
            return self + (-Poly.of(o))
        except TypeError:
            return NotImplemented

    @arrays
    def __rsub__(self, o):
        return (-self) + o

    @arrays
    def __mul__(self, o):
        try:
            o = Poly.of(o)
        except TypeError:
            return NotImplemented
        d = {}
        for m, c in self.t.items():
            for n, e in o.t.items():
                k = mmul(m, n)
                v = (c[0]*e[0]-c[1]*e[1], c[0]*e[1]+c[1]*e[0])
                p = d.get(k)
                if p is not None:
                    v = (p[0]+v[0], p[1]+v[1])
                if v == ZERO:
                    d.pop(k, None)
                else:
                    d[k] = v
        r = Poly(d)
        return reduce(r) if _needs_reduce(r) else r
    __rmul__ = __mul__

    def inv(self):
        if not self.t:
            raise Undefined('division by zero')
        if len(self.t) == 1:
            (m, c), = self.t.items()
            n = c[0]*c[0] + c[1]*c[1]
            return Poly({tuple((a, -e) for a, e in m): (c[0]/n, -c[1]/n)})
        # make the divisor monic in its largest monomial so that equal divisors share one atom
        lead = max(self.t, key=_mkey)
        c = self.t[lead]
        cp = Poly({(): c})
        ci = cp.inv()
        D = self*ci
        key = frozenset(D.t.items())
        a = _INV.get(key)
        if a is None:
            real = D.t == D.conj().t
            sites = {ATOMS[x].site for mm in D.t for x, _ in mm} - {None}
            site = sites.pop() if len(sites) == 1 else (None if not sites else 'mixed')
            col = any(ATOMS[x].col and ATOMS[x].site is not None for mm in D.t for x, _ in mm)
            a = Atom('1/(%s)' % show(D)[:160], site=site, nonzero=True, kind='real' if real else 'complex', col=col)
            a.rel = D
            if not real:
                b = Atom('conj(1/(%s))' % show(D), site=site, nonzero=True, kind='complex', col=col)
                b.rel = D.conj()
                a.conj, b.conj = b, a
            _INV[key] = a
        return Poly({((a.id, 1),): ONE})*ci

    @arrays
    def __truediv__(self, o):
        try:
            o = Poly.of(o)
        except TypeError:
            return NotImplemented
        return self*o.inv()

    @arrays
    def __rtruediv__(self, o):
        return Poly.of(o)*self.inv()

    def __pow__(self, n):
        if isinstance(n, Poly):
            if n.is_const():
                n = n.const()[0]
            else:
                return opaque('pow', self, n)
        if hasattr(n, 'item'):
            n = n.item()
        if float(n) != int(n):
            return opaque('pow', self, Poly.of(n))
        n = int(n)
        if n < 0:
            return (self**(-n)).inv()
        r = Poly.of(1)
        for _ in range(n):
            r = r*self
        return r

    def __rpow__(self, b):
        return opaque('pow', Poly.of(b), self)

    def conj(self):
        return Poly({tuple(sorted((ATOMS[a].conj.id, e) for a, e in m)): (c[0], -c[1]) for m, c in self.t.items()})
    conjugate = conj

    @property
    def real(self):
        return (self + self.conj())*Fraction(1, 2)

    @property
    def imag(self):
        return (self - self.conj())*Poly({(): (Fraction(0), Fraction(-1, 2))})

    def is_real(self):
        return self.conj().t == self.t

    def __abs__(self):
        return opaque('abs', self, nonneg=True)

    # numpy object-array fallbacks (np.sqrt etc. call the method of that name)
    def sqrt(self):
        return opaque('sqrt', self, nonneg=True)

    # -- comparisons: delegated (see sym.compare)
    def __eq__(self, o):
        return COMPARE('==', self, o)

    def __ne__(self, o):
        return COMPARE('!=', self, o)

    def __lt__(self, o):
        return COMPARE('<', self, o)

    def __le__(self, o):
        return COMPARE('<=', self, o)

    def __gt__(self, o):
        return COMPARE('>', self, o)

    def __ge__(self, o):
        return COMPARE('>=', self, o)

    def __bool__(self):
        return bool(COMPARE('!=', self, 0))

    def same(self, o):
        """Syntactic normal-form equality (no solver)."""
        return is_zero(self - Poly.of(o))

    def __float__(self):
        if self.is_const() and self.const()[1] == 0:
            return float(self.const()[0])
        raise NeedsNumber('a symbolic value is used where a number is needed: %s' % show(self))

    def __int__(self):
        return int(self.__float__())

    def __index__(self):
        f = self.__float__()
        if f != int(f):
            raise TypeError('not an integer')
        return int(f)

    def _residue(self, o):
        """The remainder modulo a positive constant, when the normal form determines it."""
        o = Poly.of(o)
        if not o.is_const() or self.is_const():
            return None
        n = o.const()[0]
        if o.const()[1] != 0 or n.denominator != 1 or n <= 1:
            return None
        r = 0
        for m, v in self.t.items():
            if v[1] != 0 or v[0].denominator != 1 or any(ATOMS[a].kind != 'int' or e < 0 for a, e in m):
                return None
            if not m:
                r = int(v[0])
            elif int(v[0]) % int(n):
                return None
        return r % int(n)

    def __floordiv__(self, o):
        r = self._residue(o)
        if r is not None:
            return (self-Poly.of(r))*Poly.of(o).inv()
        return opaque('floordiv', self, Poly.of(o), kind='int')

    def __rfloordiv__(self, o):
        return Poly.of(o)//self

    def __mod__(self, o):
        return self - Poly.of(o)*(self//o)

    def __rmod__(self, o):
        return Poly.of(o) % self

    def __divmod__(self, o):
        return self//o, self % o

    def __format__(self, spec):
        return show(self)

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def dtype(self):
        import numpy as np
        return np.dtype('float64') if self.is_real() else np.dtype('complex128')

    def copy(self):
        return self

    def item(self):
        return self


class NeedsNumber(Exception):
    pass


class Deferred:
    pass


def COMPARE(op, a, b):       # replaced by sym
    raise RuntimeError('no comparison back end')


def set_compare(f):
    global COMPARE
    COMPARE = f


def opaque(name, *args, nonneg=False, kind='real'):
    """Uninterpreted function of scalars (canonical argument order / sign where the function has one)."""
    if name in ('max', 'min') and len(args) == 2:
        a, b = args
        if a.is_const() and b.is_const():
            return Poly.of((max if name == 'max' else min)(a.const()[0], b.const()[0]))
        if (a-b).t == {}:
            return a
        if sorted([_pkey(a), _pkey(b)])[0] != _pkey(a):
            args = (b, a)
    elif name == 'floordiv' and args[0].is_const() and args[1].is_const() and args[1].t:
        import math
        return Poly.of(math.floor(args[0].const()[0]/args[1].const()[0]))
    elif name == 'pow':
        a, e = args
        if e.is_const() and e.const()[0] < 0:
            args = (a.inv(), -e)
    elif name == 'abs' and len(args[0].t) and args[0].is_real():
        a = args[0]
        if a.t[max(a.t, key=_mkey)][0] < 0:
            args = (-a,)
    if name == 'sqrt' and args[0].is_const() and args[0].const()[1] == 0 and args[0].const()[0] >= 0:
        import math
        c = args[0].const()[0]
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n*n == c.numerator and d*d == c.denominator:
            return Poly.of(Fraction(n, d))
    if name in ('sqrt', 'max', 'min', 'abs'):       # positive common factors come out; sqrt is monotone
        g = positive_content(args)
        if g:
            inner = opaque(name, *[a*Poly({tuple((x, -e) for x, e in g): ONE}) for a in args], nonneg=nonneg, kind=kind)
            return inner*(Poly({g: ONE}) if name != 'sqrt' else sqrt_positive(g))
        if name == 'sqrt' and len(args[0].t) == 1:
            (m, c), = args[0].t.items()
            if c == ONE and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].fn and ATOMS[m[0][0]].fn[0] in ('max', 'min'):
                f, ab = ATOMS[m[0][0]].fn
                if all(nonnegative(x) for x in ab):
                    return opaque(f, *[opaque('sqrt', x, nonneg=True) for x in ab], nonneg=True)
    key = ('fn', name) + tuple(frozenset(a.t.items()) for a in args)
    sites = {ATOMS[x].site for a in args for m in a.t for x, _ in m} - {None}
    site = sites.pop() if len(sites) == 1 else (None if not sites else 'mixed')
    new = key not in TABLE
    p = atom(key, '%s(%s)' % (name, ', '.join(show(a) for a in args)[:160]), site=site,
             info=('nonneg',) if nonneg else None, kind=kind)
    if new:
        TABLE[key].fn = (name, args)
    return p


def positive_content(args):
    """Monomial of positive atoms dividing every term of every argument (largest such exponents)."""
    g = None
    for a in args:
        for m in a.t:
            e = {x: k for x, k in m if ATOMS[x].positive or (ATOMS[x].info and ATOMS[x].info[0] == 'ge1')}
            g = e if g is None else {x: min(g.get(x, 0), e.get(x, 0)) for x in set(g) | set(e)}
    return tuple(sorted((x, k) for x, k in (g or {}).items() if k))


def sqrt_positive(g):
    out = Poly.of(1)
    for x, k in g:
        if k % 2 == 0:
            out = out*Poly({((x, k//2),): ONE})
            continue
        key = ('fn', 'sqrt', x)
        new = key not in TABLE
        p = atom(key, 'sqrt(%s)' % ATOMS[x].name, site=ATOMS[x].site, positive=True)
        if new:
            TABLE[key].fn = ('sqrt', (Poly({((x, 1),): ONE}),))
        (m, _), = p.t.items()
        out = out*Poly({((m[0][0], k),): ONE})
    return out


def nonnegative(p):
    def atom_ok(A):
        if A.positive or (A.info and A.info[0] in ('nonneg', 'ge0', 'ge1')):
            return True
        if A.fn and A.fn[0] in ('max', 'min', 'sqrt', 'abs'):
            return A.fn[0] in ('sqrt', 'abs') or all(nonnegative(x) for x in A.fn[1])
        return False
    return all(c[1] == 0 and c[0] > 0 and all((e % 2 == 0 and ATOMS[a].kind != 'complex') or atom_ok(ATOMS[a]) for a, e in m)
               for m, c in p.t.items())


def gsum(vals, n):
    """Sum over all grid points of a value given at the generic points: a scalar, linear in scalar factors."""
    out = Poly({})
    groups = {}
    for v in vals:
        for m, c in v.t.items():
            sc = tuple((a, e) for a, e in m if ATOMS[a].site is None)
            g = tuple((a, e) for a, e in m if ATOMS[a].site is not None)
            groups.setdefault(sc, []).append((g, c))
    for sc, l in groups.items():
        gp = {}
        for g, c in l:
            o = gp.get(g, ZERO)
            gp[g] = (o[0]+c[0], o[1]+c[1])
        q = Poly({g: c for g, c in gp.items() if c != ZERO})
        if not q.t:
            continue
        if q.is_const():
            out = out + Poly({sc: ONE})*q*n
            continue
        key = ('gsum', frozenset(q.t.items()))
        nonneg = all(c[1] == 0 and c[0] > 0 and all(e % 2 == 0 and ATOMS[a].kind != 'complex' or (ATOMS[a].info and ATOMS[a].info[0] == 'nonneg') for a, e in g)
                     for g, c in q.t.items())
        new = key not in TABLE
        p = atom(key, 'sum(%s)' % show(q)[:160], info=('nonneg',) if nonneg else None, complex=not q.is_real())
        if new:
            TABLE[key].fn = ('gsum', (q,))
        out = out + Poly({sc: ONE})*p
    return out


def gext(name, vals):
    """Largest (gmax) or smallest (gmin) value over a grid of values given at the generic points."""
    vals = list({frozenset(v.t.items()): v for v in vals}.values())
    key = ('fn', name, frozenset(frozenset(v.t.items()) for v in vals))
    new = key not in TABLE
    p = atom(key, '%s(%s)' % (name, ', '.join(show(v) for v in vals)[:160]), info=('nonneg',) if all(nonnegative(v) for v in vals) else None)
    if new:
        TABLE[key].fn = (name, tuple(vals))
    return p


def _pkey(p):
    return sorted((m, c) for m, c in p.t.items())


def _mkey(m):
    return (sum(e for _, e in m), tuple((-a, e) for a, e in m))


def _needs_reduce(p):
    for m in p.t:
        for a, e in m:
            if ATOMS[a].rel is not None:
                return True
    return False


def reduce(p):
    """Normal form modulo inv*D - 1 (leading monomial of D eliminated next to inv)."""
    work = dict(p.t)
    out = {}
    n = 0
    while work:
        m, c = work.popitem()
        hit = None
        for a, e in m:
            D = ATOMS[a].rel
            if D is not None and e > 0:
                lead = max(D.t, key=_mkey)
                md = dict(m)
                if all(md.get(x, 0) >= k for x, k in lead):
                    hit = (a, D, lead)
                    break
        if hit is None:
            v = out.get(m)
            c2 = c if v is None else (v[0]+c[0], v[1]+c[1])
            if c2 == ZERO:
                out.pop(m, None)
            else:
                out[m] = c2
            continue
        n += 1
        if n > 20000:
            raise Undefined('reduction does not terminate')
        a, D, lead = hit
        rest = mmul(m, tuple((x, -k) for x, k in lead))         # inv^e * other
        r1 = mmul(rest, ((a, -1),))
        for mm, cc in [(r1, ONE)] + [(mmul(rest, dm), (-dc[0], -dc[1])) for dm, dc in D.t.items() if dm != lead]:
            v = (c[0]*cc[0]-c[1]*cc[1], c[0]*cc[1]+c[1]*cc[0])
            q = work.get(mm)
            if q is not None:
                v = (q[0]+v[0], q[1]+v[1])
            if v == ZERO:
                work.pop(mm, None)
            else:
                work[mm] = v
    return Poly(out)


def clear_inverses(p):
    """Multiply by the divisors (each nonzero) until no inverse atom and no negative exponent is left."""
    while True:
        inv = None
        for m in p.t:
            for a, e in m:
                if ATOMS[a].rel is not None:
                    # innermost last: pick the inverse with the largest id first
                    if inv is None or a > inv:
                        inv = a
        if inv is None:
            break
        D = ATOMS[inv].rel
        n = max(dict(m).get(inv, 0) for m in p.t)
        n = max(n, 0)
        pows = [Poly.of(1)]
        for _ in range(n - min(0, min(dict(m).get(inv, 0) for m in p.t))):
            pows.append(_rawmul(pows[-1], D))
        q = {}
        acc = Poly({})
        for m, c in p.t.items():
            e = dict(m).get(inv, 0)
            rest = tuple((a, x) for a, x in m if a != inv)
            acc = acc + _rawmul(Poly({rest: c}), pows[n - e])
        p = acc
    # negative powers of single atoms
    low = {}
    for m in p.t:
        for a, e in m:
            if e < 0:
                low[a] = min(low.get(a, 0), e)
    if low:
        s = tuple(sorted((a, -e) for a, e in low.items()))
        p = Poly({mmul(m, s): c for m, c in p.t.items()})
    return p


def _rawmul(p, q):
    d = {}
    for m, c in p.t.items():
        for n, e in q.t.items():
            k = mmul(m, n)
            v = (c[0]*e[0]-c[1]*e[1], c[0]*e[1]+c[1]*e[0])
            o = d.get(k)
            if o is not None:
                v = (o[0]+v[0], o[1]+v[1])
            if v == ZERO:
                d.pop(k, None)
            else:
                d[k] = v
    return Poly(d)


def is_zero(p):
    if not p.t:
        return True
    return not clear_inverses(p).t


def atoms_of(p):
    return {a for m in p.t for a, _ in m}


def show(p, limit=14):
    if not p.t:
        return '0'
    out = []
    for m, c in list(p.t.items())[:limit]:
        ms = '*'.join(ATOMS[a].name + ('' if e == 1 else '^%d' % e) for a, e in m)
        if c[1] == 0:
            cs = str(c[0])
        elif c[0] == 0:
            cs = '%s*i' % c[1]
        else:
            cs = '(%s+%s*i)' % c
        out.append(cs + ('*'+ms if ms else '') if cs != '1' or not ms else ms)
    s = ' + '.join(out)
    if len(p.t) > limit:
        s += ' + ...(%d terms)' % len(p.t)
    return s


def evaluate(p, env):
    """Numeric value of p under env: atom id -> complex/Fraction."""
    tot = 0
    for m, c in p.t.items():
        v = complex(float(c[0]), float(c[1]))
        for a, e in m:
            v *= env(a)**e
        tot += v
    return tot
