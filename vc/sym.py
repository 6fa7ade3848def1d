"""Paths, path conditions and the solver interface of the VC generator."""
import time
import z3
from fractions import Fraction
from . import poly
from .poly import Poly, ATOMS, Undefined

Z3_TIMEOUT = 8000


class PathEnd(Exception):
    """The current path is finished (loop iteration checked, infeasible, ...)."""


class Unsupported(Exception):
    """The engine cannot give this code a meaning: the obligation is left undischarged, never a violation."""


class BoundsError(Exception):
    """An array access of the code under proof is not within the declared extent: a refuted obligation."""


class ContractFailure(Exception):
    """The code refuses an input allowed by the contract (wrong arity, wrong rank/dtype, exception)."""


class State:
    def __init__(self):
        self.hyps = []          # z3 expressions: path conditions and preconditions
        self.facts = []         # z3 facts about opaque terms
        self.decisions = []     # recorded (choice, had_alternative)
        self.prefix = []
        self.pos = 0
        self.solver_s = 0.0
        self.queries = 0
        self.obls = []
        self.fresh = 0
        self.nf = 0
        self.labels = []


ST = State()


# ------------------------------------------------------------------------------------ z3 translation
_vars = {}


def zvar(a):
    """(re, im) z3 terms of an atom."""
    v = _vars.get(a)
    if v is None:
        at = ATOMS[a]
        if at.kind == 'complex':
            c = at.conj.id
            if c in _vars and c != a:
                r, i = _vars[c]
                v = (r, -i)
            else:
                v = (z3.Real('re_%d' % a), z3.Real('im_%d' % a))
        elif at.kind == 'int':
            v = (z3.ToReal(z3.Int('n_%d' % a)), None)
        else:
            v = (z3.Real('v_%d' % a), None)
        _vars[a] = v
    return v


def _frac(f):
    return z3.RealVal(str(f))


def zpoly(p):
    """Poly without negative exponents -> (re, im) z3 terms."""
    re, im = [], []
    for m, c in p.t.items():
        tr, ti = _frac(c[0]), (None if c[1] == 0 else _frac(c[1]))
        if c[0] == 0:
            tr = None
        for a, e in m:
            vr, vi = zvar(a)
            if e < 0:
                iv = zinv(a)
                vr, vi, e = iv[0], iv[1], -e
            for _ in range(e):
                tr, ti = _cmul(tr, ti, vr, vi)
        if tr is not None:
            re.append(tr)
        if ti is not None:
            im.append(ti)
    s = lambda l: z3.Sum(l) if len(l) > 1 else (l[0] if l else z3.RealVal(0))
    return s(re), s(im)


def _cmul(a, b, c, d):
    def mul(x, y):
        if x is None or y is None:
            return None
        return x*y

    def add(x, y):
        if x is None:
            return y
        if y is None:
            return x
        return x+y

    def neg(x):
        return None if x is None else -x
    return add(mul(a, c), neg(mul(b, d))), add(mul(a, d), mul(b, c))


_zinvs = {}


def zinv(a):
    v = _zinvs.get(a)
    if v is None:
        r, i = zvar(a)
        if i is None:
            x = z3.Real('inv_%d' % a)
            v = (x, None, [x*r == 1])
        else:
            x, y = z3.Real('invr_%d' % a), z3.Real('invi_%d' % a)
            v = (x, y, [x*r - y*i == 1, x*i + y*r == 0])
        _zinvs[a] = v
    return v


def side_conditions(polys):
    """Facts about the atoms occurring in the polys (definitions of inverses, signs, non-vanishing)."""
    out = []
    seen = set()
    stack = [a for p in polys for m in p.t for a, _ in m]
    negs = {a for p in polys for m in p.t for a, e in m if e < 0}
    while stack:
        a = stack.pop()
        if a in seen:
            continue
        seen.add(a)
        at = ATOMS[a]
        if at.rel is not None:
            p = poly._rawmul(Poly({((a, 1),): poly.ONE}), at.rel)
            low = [x for m in p.t for x, e in m if e < 0]
            negs.update(low)
            r, i = zpoly(p)
            out += [r == 1]
            if at.kind == 'complex':
                out += [i == 0]
            stack += list(poly.atoms_of(at.rel))
        if at.positive:
            out.append(zvar(a)[0] > 0)
        elif at.info and at.info[0] == 'nonneg':
            out.append(zvar(a)[0] >= 0)
        elif at.nonzero:
            r, i = zvar(a)
            out.append(r != 0 if i is None else z3.Or(r != 0, i != 0))
        if at.info and at.info[0] == 'ge1':
            out.append(zvar(a)[0] >= 1)
        if at.info and at.info[0] == 'ge0':
            out.append(zvar(a)[0] >= 0)
    for a in negs:
        out += zinv(a)[2]
    return out


HYP_POLYS = []


def assume(cond):
    """Add a precondition / path condition."""
    if isinstance(cond, SBool):
        ST.hyps.append(cond.z)
        HYP_POLYS.extend(cond.polys)
    elif cond is False:
        raise PathEnd('infeasible')


class SBool:
    """A symbolic truth value."""
    __array_ufunc__ = None
    __slots__ = ('z', 'polys', 'text')

    def __init__(self, z, polys, text=''):
        self.z = z
        self.polys = polys
        self.text = text

    def __bool__(self):
        return decide(self)

    def __and__(self, o):
        o = as_sbool(o)
        return SBool(z3.And(self.z, o.z), self.polys + o.polys, '(%s) and (%s)' % (self.text, o.text))
    __rand__ = __and__

    def __or__(self, o):
        o = as_sbool(o)
        return SBool(z3.Or(self.z, o.z), self.polys + o.polys, '(%s) or (%s)' % (self.text, o.text))
    __ror__ = __or__

    def __invert__(self):
        return SBool(z3.Not(self.z), self.polys, 'not (%s)' % self.text)

    def __repr__(self):
        return self.text or str(self.z)

    # numeric use of a truth value (mask*array): decided, then 0/1
    def __mul__(self, o):
        return (1 if bool(self) else 0)*o
    __rmul__ = __mul__

    def __add__(self, o):
        return (1 if bool(self) else 0)+o
    __radd__ = __add__


def as_sbool(x):
    if isinstance(x, SBool):
        return x
    return SBool(z3.BoolVal(bool(x)), [], str(x))


def check(zs, polys, timeout=None):
    s = z3.Solver()
    s.set('timeout', timeout or Z3_TIMEOUT)
    s.add(*ST.hyps)
    ps = list(polys) + HYP_POLYS
    fs, extra = facts_for(ps)
    s.add(*ST.facts)
    s.add(*fs)
    s.add(*side_conditions(ps + extra))
    s.add(*zs)
    t = time.time()
    r = s.check()
    ST.solver_s += time.time() - t
    ST.queries += 1
    return r, s


def compare(op, a, b):
    try:
        a, b = Poly.of(a), Poly.of(b)
    except (TypeError, ValueError):
        if op == '==':
            return False
        if op == '!=':
            return True
        return NotImplemented
    d = a - b
    if op in ('==', '!='):
        q = poly.clear_inverses(d)
        if not q.t:
            return op == '=='
        if q.is_const():
            return op == '!='
        if len(q.t) == 1 and all(ATOMS[x].nonzero or ATOMS[x].positive for x in poly.atoms_of(q)):
            return op == '!='
        r, i = zpoly(q)
        e = r == 0 if q.is_real() else z3.And(r == 0, i == 0)
        sb = SBool(e, [q], '%s == 0' % poly.show(d))
        return sb if op == '==' else ~sb
    if d.is_const():
        if d.const()[1] != 0:
            raise Undefined('ordering of complex values')
        c = d.const()[0]
        return {'<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0}[op]
    if not d.is_real():
        raise Undefined('ordering of complex values')
    r, _ = zpoly(d)
    e = {'<': r < 0, '<=': r <= 0, '>': r > 0, '>=': r >= 0}[op]
    return SBool(e, [d], '%s %s 0' % (poly.show(d), op))


poly.set_compare(compare)


def _facts(at, zv):
    """Order axioms of an opaque function at its arguments."""
    name, args = at.fn
    v = zv[0]
    if name == 'sqrt':
        ar, _ = zpoly(args[0])
        return [v >= 0, z3.Implies(ar >= 0, v*v == ar), z3.Implies(ar > 0, v > 0)]
    if name == 'abs':
        if not args[0].is_real():
            return [v >= 0]
        ar, _ = zpoly(args[0])
        return [v >= 0, z3.Or(v == ar, v == -ar)]
    if name in ('max', 'min'):
        x, y = zpoly(args[0])[0], zpoly(args[1])[0]
        return [v == z3.If(x >= y if name == 'max' else x <= y, x, y)]
    if name in ('gmax', 'gmin'):
        out = []
        for x in args:
            z = zpoly(x)[0]
            out.append(v >= z if name == 'gmax' else v <= z)
            for a in poly.atoms_of(x):              # a modulus that vanishes belongs to a number that vanishes
                f = ATOMS[a].fn
                if f and f[0] == 'abs' and not f[1][0].is_real() and len(f[1][0].t) <= 3:
                    r, i = zpoly(f[1][0])
                    out.append(z3.Implies(zvar(a)[0] == 0, z3.And(r == 0, i == 0)))
        return out
    if name == 'floordiv':
        x, y = zpoly(args[0])[0], zpoly(args[1])[0]
        return [z3.Implies(y > 0, z3.And(x - y*v >= 0, x - y*v < y))]
    if name == 'pow':
        x = zpoly(args[0])[0]
        out = [z3.Implies(x > 0, v > 0)]
        if args[1].is_const() and args[1].const()[0] > 0:
            out += [z3.Implies(z3.And(x > 0, x < 1), v < 1), z3.Implies(x > 1, v > 1), z3.Implies(x == 1, v == 1)]
        return out
    return []


def facts_for(polys):
    """Axioms of the opaque terms the polys depend on (not looking inside sums over the grid and complex moduli)."""
    out, extra, seen = [], [], set()
    stack = [a for p in polys for m in p.t for a, _ in m]
    while stack:
        a = stack.pop()
        if a in seen:
            continue
        seen.add(a)
        at = ATOMS[a]
        if at.rel is not None:
            stack += list(poly.atoms_of(at.rel))
        if at.fn is None or at.fn[0] == 'gsum':
            continue
        out += _facts(at, zvar(a))
        if at.fn[0] == 'abs' and not at.fn[1][0].is_real():
            continue
        for q in at.fn[1]:
            extra.append(q)
            stack += list(poly.atoms_of(q))
    return out, extra




def decide(b):
    """Branch on a symbolic truth value."""
    s = z3.simplify(b.z)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    if ST.pos < len(ST.prefix):
        c, alt = ST.prefix[ST.pos]
    else:
        rt, _ = check([b.z], b.polys)
        rf, _ = check([z3.Not(b.z)], b.polys)
        t, f = rt != z3.unsat, rf != z3.unsat
        if t and f:
            c, alt = True, True
        elif t:
            c, alt = True, False
        elif f:
            c, alt = False, False
        else:
            raise PathEnd('infeasible')
    ST.pos += 1
    ST.decisions.append((c, alt))
    if len(ST.decisions) > 400:
        raise Unsupported('more than 400 branches on one path (a loop without a registered invariant?)')
    ST.hyps.append(b.z if c else z3.Not(b.z))
    HYP_POLYS.extend(b.polys)
    if alt:
        ST.labels.append(('' if c else 'not ') + '(' + b.text + ')')
    return c


def choose(n, label=''):
    """Nondeterministic choice among n alternatives (each becomes a path)."""
    for k in range(n-1):
        if ST.pos < len(ST.prefix):
            c, alt = ST.prefix[ST.pos]
        else:
            c, alt = True, True
        ST.pos += 1
        ST.decisions.append((c, alt))
        if c:
            ST.labels.append('%s=%d' % (label, k))
            return k
    ST.labels.append('%s=%d' % (label, n-1))
    return n-1


def explore(fn, max_paths=400):
    """Run fn once per feasible path; fn is deterministic given the decisions.  Returns the number of paths."""
    prefix = []
    n = 0
    while True:
        ST.hyps, ST.facts, ST.decisions, ST.prefix, ST.pos = [], [], [], prefix, 0
        ST.labels = []
        HYP_POLYS.clear()
        poly.reset()
        _vars.clear()
        _zinvs.clear()
        n += 1
        try:
            fn()
        except PathEnd:
            pass
        d = list(ST.decisions)
        while d and not (d[-1][1] and d[-1][0] is True):
            d.pop()
        if not d:
            return n
        prefix = d[:-1] + [(False, True)]
        if n >= max_paths:
            raise Unsupported('more than %d paths' % max_paths)


def numeric(z, val):
    """Value of a z3 term when the atoms have the values val(id); raises on anything it does not know."""
    k = z.decl().kind()
    if z3.is_rational_value(z):
        return z.numerator_as_long()/z.denominator_as_long()
    if z3.is_int_value(z):
        return z.as_long()
    if k == z3.Z3_OP_UNINTERPRETED and z.num_args() == 0:
        n, _, a = z.decl().name().rpartition('_')
        v = complex(val(int(a)))
        return {'re': v.real, 'im': v.imag, 'n': v.real, 'v': v.real, 'inv': 1/v.real if v.real else 0.0,
                'invr': (1/v).real if v else 0.0, 'invi': (1/v).imag if v else 0.0}[n]
    ch = [numeric(c, val) for c in z.children()]
    if k == z3.Z3_OP_ADD:
        return sum(ch)
    if k == z3.Z3_OP_MUL:
        r = 1.0
        for c in ch:
            r *= c
        return r
    two = {z3.Z3_OP_SUB: lambda x, y: x-y, z3.Z3_OP_DIV: lambda x, y: x/y, z3.Z3_OP_LE: lambda x, y: x <= y, z3.Z3_OP_GE: lambda x, y: x >= y,
           z3.Z3_OP_LT: lambda x, y: x < y, z3.Z3_OP_GT: lambda x, y: x > y, z3.Z3_OP_IMPLIES: lambda x, y: (not x) or y,
           z3.Z3_OP_EQ: lambda x, y: x == y if isinstance(x, bool) else abs(x-y) <= 1e-9*max(abs(x), abs(y), 1e-12)}
    if k in two and len(ch) == 2:
        return two[k](*ch)
    other = {z3.Z3_OP_UMINUS: lambda x: -x, z3.Z3_OP_TO_REAL: lambda x: x, z3.Z3_OP_NOT: lambda x: not x, z3.Z3_OP_AND: lambda *x: all(x),
             z3.Z3_OP_OR: lambda *x: any(x), z3.Z3_OP_ITE: lambda c, x, y: x if c else y, z3.Z3_OP_TRUE: lambda: True, z3.Z3_OP_FALSE: lambda: False}
    if k in other:
        return other[k](*ch)
    raise Unsupported('numeric value of %s' % z.decl())


def feasible():
    """Vacuity guard: are the current hypotheses satisfiable?  (True / False / None for unknown)"""
    r, _ = check([], [], timeout=4000)
    return True if r == z3.sat else (False if r == z3.unsat else None)
