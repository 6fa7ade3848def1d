"""Load the repository's own modules for symbolic execution.

The text executed is the text in /repo, read on every run.  What the loader changes, mechanically:
 * names `range`/`xrange`, `min`, `max`, `sum`, `float`, `int`, `pow`, `print`, `__import__` resolve to engine versions
 * imports of numpy, mpi4py, shenfun, ... resolve to the engine's contracts for them
 * `while` loops are cut by their invariant when one is registered (see `loops`)
 * after a loop over a grid dimension, names bound in its body are poisoned; loop-carried names are refused
 * Cython text is reduced to Python by dropping declarations (see decython)
 * numba.jit and nogil blocks are identities
"""
import ast, builtins, os, re, types, importlib
import numpy as _np
from . import poly, sym, arr
from .poly import Poly
from .sym import Unsupported, BoundsError, ContractFailure, ST, PathEnd
from .arr import SArr, SymDim, Idx, NP

REPO = os.environ.get('VC_REPO', '/repo')


# ------------------------------------------------------------------------------------------ fake modules
class Fake(types.ModuleType):
    def __init__(self, name, **kw):
        types.ModuleType.__init__(self, name)
        self.__dict__.update(kw)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return _Missing(self.__name__ + '.' + n)


class _Missing:
    def __init__(self, name):
        self._name = name

    def __call__(self, *a, **k):
        raise Unsupported('external function %s has no contract' % self._name)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return _Missing(self._name + '.' + n)

    def __mro_entries__(self, bases):
        return (object,)


class float64(_np.float64):
    def __new__(cls, x=0):
        return x if isinstance(x, (Poly, SArr)) else _np.float64(x)


class float32(_np.float32):
    def __new__(cls, x=0):
        return x if isinstance(x, (Poly, SArr)) else _np.float32(x)


NP.float64 = float64
NP.float32 = float32


class _Const:
    pass


class Comm:
    """mpi4py communicator: one process (reductions are identities)."""
    rank = 0

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return 1

    size = 1

    def reduce(self, x, op=None, root=0):
        return x

    def bcast(self, x, root=0):
        return x

    def allreduce(self, x, op=None):
        return x

    def barrier(self):
        pass
    Barrier = barrier

    def Allreduce(self, a, b, op=None):
        b[...] = a

    def Reduce(self, a, b, op=None, root=0):
        b[...] = a


COMM = Comm()


class _MPI:
    COMM_WORLD = COMM
    C_FLOAT_COMPLEX = 'fc'
    C_DOUBLE_COMPLEX = 'dc'
    MIN = 'min'
    MAX = 'max'
    SUM = 'sum'


# ------------------------------------------------------------------------------------------ builtins
def v_range(*a):
    if len(a) == 1 and isinstance(a[0], SymDim):
        return arr.generic_range(a[0])
    if len(a) == 2 and isinstance(a[1], SymDim) and not isinstance(a[0], (Poly, Idx)) and a[0] == 0:
        return arr.generic_range(a[1])
    if any(isinstance(x, Idx) for x in a):
        raise Unsupported('range over an index')
    if any(isinstance(x, Poly) for x in a):
        if any(not x.is_const() for x in a if isinstance(x, Poly)):
            raise Unsupported('range with a symbolic bound')
        a = tuple(int(x) for x in a)
    return range(*a)


def _v_minmax(name):
    real = getattr(builtins, name)

    def f(*a, **k):
        if len(a) == 2 and not k and any(isinstance(x, Poly) for x in a):
            x, y = Poly.of(a[0]), Poly.of(a[1])
            return poly.opaque(name, x, y)
        if len(a) == 1 and not k and not isinstance(a[0], (Poly, str, dict, set)):
            a = (list(a[0]),)
        v = a[0] if len(a) == 1 else a
        if v and not k and isinstance(v, (list, tuple)) and any(isinstance(x, Poly) for x in v):
            r = Poly.of(v[0])
            for x in v[1:]:
                r = poly.opaque(name, r, Poly.of(x))
            return r
        return real(*a, **k)
    return f


class _FloatMeta(type(float)):
    def __instancecheck__(cls, x):
        return isinstance(x, float)

    def __eq__(cls, o):
        return o is float or o is cls

    def __hash__(cls):
        return hash(float)


def v_pow(a, b, *c):
    if isinstance(a, Poly) or isinstance(b, Poly):
        return Poly.of(a)**b
    return builtins.pow(a, b, *c)


class Poison:
    def __init__(self, name):
        object.__setattr__(self, '_n', name)

    def _bad(self, *a, **k):
        raise Unsupported('%s carries a value out of a loop over a grid axis' % self._n)
    __getattr__ = __call__ = __getitem__ = __setitem__ = __add__ = __radd__ = __mul__ = __rmul__ = __sub__ = \
        __rsub__ = __neg__ = __bool__ = __iter__ = _bad
    __array_ufunc__ = None


# ------------------------------------------------------------------------------------------ AST transform
class _Assigned(ast.NodeVisitor):
    def __init__(self):
        self.names = []

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Store) and n.id not in self.names:
            self.names.append(n.id)

    def visit_FunctionDef(self, n):
        pass
    visit_Lambda = visit_FunctionDef


def assigned(stmts):
    v = _Assigned()
    for s in stmts:
        v.visit(s)
    return v.names


def read_before_write(stmts, cand):
    """Names in cand that some execution of stmts may read before writing (conservative)."""
    out = set()

    def expr(e, d):
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in cand and n.id not in d:
                out.add(n.id)

    def block(ss, d):
        for s in ss:
            d = stmt(s, d)
        return d

    def targets(t, d):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                d = d | {n.id}
            elif isinstance(n, ast.Name):
                expr(n, d)
        return d

    def stmt(s, d):
        if isinstance(s, ast.Assign):
            expr(s.value, d)
            for t in s.targets:
                for n in ast.walk(t):
                    if isinstance(n, (ast.Subscript, ast.Attribute)):
                        expr(n, d)
            for t in s.targets:
                d = targets(t, d)
            return d
        if isinstance(s, ast.AugAssign):
            expr(s.value, d)
            if isinstance(s.target, ast.Name):
                if s.target.id in cand and s.target.id not in d:
                    out.add(s.target.id)
                return d | {s.target.id}
            expr(s.target, d)
            return d
        if isinstance(s, ast.If):
            expr(s.test, d)
            a, b = block(s.body, d), block(s.orelse, d)
            return a & b
        if isinstance(s, ast.For):
            expr(s.iter, d)
            d2 = targets(s.target, d)
            block(s.body, d2)
            block(s.orelse, d)
            return d
        if isinstance(s, ast.While):
            expr(s.test, d)
            block(s.body, d)
            return d
        if isinstance(s, ast.With):
            for i in s.items:
                expr(i.context_expr, d)
            return block(s.body, d)
        for n in ast.iter_child_nodes(s):
            if isinstance(n, ast.expr):
                expr(n, d)
        return d
    block(stmts, frozenset())
    return out


def stores(n):
    """What a counted loop over one variable writes to: ((name, shift of the index, or 'push' or None), ...)."""
    if not isinstance(n.target, ast.Name):
        return ()
    i, r = n.target.id, {}
    for x in ast.walk(n):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'push_back' and isinstance(x.func.value, ast.Name):
            r[x.func.value.id] = 'push'
        elif isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name):
            e, s = x.slice, None
            if isinstance(e, ast.Name) and e.id == i:
                s = 0
            elif isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)) and isinstance(e.left, ast.Name) and e.left.id == i \
                    and isinstance(e.right, ast.Constant) and isinstance(e.right.value, int):
                s = e.right.value if isinstance(e.op, ast.Add) else -e.right.value
            r[x.value.id] = s if r.get(x.value.id, s) == s else None
    return tuple(sorted(r.items(), key=lambda q: q[0]))


class Transform(ast.NodeTransformer):
    def __init__(self, modname, loops):
        self.mod = modname
        self.loops = loops
        self.fn = []
        self.k = {}
        self.kf = {}

    def visit_FunctionDef(self, n):
        self.fn.append(n.name)
        self.k.setdefault('.'.join(self.fn), 0)
        self.generic_visit(n)
        self.fn.pop()
        return n

    def visit_For(self, n):
        fn = '.'.join(self.fn)
        k = self.kf.get(fn, 0)
        self.kf[fn] = k + 1
        if (self.mod, fn, 'for', k) in self.loops:
            return self.counted(n, (self.mod, fn, 'for', k))
        if (self.mod, fn, 'for', '*') in self.loops and stores(n):
            return self.counted(n, (self.mod, fn, 'for', '*', k, stores(n)))
        names = assigned(n.body)
        tnames = assigned([ast.Expr(n.target)]) if False else [x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)]
        carried = sorted(read_before_write(n.body, set(names) - set(tnames)))
        self.generic_visit(n)
        n.iter = ast.Call(ast.Attribute(ast.Name('__vc__', ast.Load()), 'loop_iter', ast.Load()),
                          [n.iter, ast.Tuple([ast.Constant(c) for c in carried], ast.Load())], [])
        poison = [x for x in names]
        if poison:
            after = ast.If(
                ast.Call(ast.Attribute(ast.Name('__vc__', ast.Load()), 'was_generic', ast.Load()), [], []),
                [ast.Assign([ast.Name(x, ast.Store())],
                            ast.Call(ast.Attribute(ast.Name('__vc__', ast.Load()), 'poison', ast.Load()),
                                     [ast.Constant(x)], [])) for x in poison if x not in carried] or [ast.Pass()],
                [])
            return [n, after]
        return n

    def counted(self, n, key):
        """A counted loop with a registered invariant."""
        if not (isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id in ('range', 'xrange')
                and not n.iter.keywords and not n.orelse and isinstance(n.target, ast.Name)):
            self.generic_visit(n)
            return n
        self.generic_visit(n)
        names = [x for x in assigned(n.body) if x != n.target.id]
        kid = ast.Constant(repr(key))
        vc = lambda f, args: ast.Call(ast.Attribute(ast.Name('__vc__', ast.Load()), f, ast.Load()), args, [])
        loc = vc('scope', [ast.Call(ast.Name('locals', ast.Load()), [], [])])
        init = ast.Expr(vc('for_init', [kid, ast.Tuple(n.iter.args, ast.Load()), loc, ast.Tuple([ast.Constant(x) for x in names], ast.Load())]))
        hav = [ast.Assign([ast.Name(x, ast.Store())], vc('havoc', [kid, ast.Constant(x)])) for x in names]
        body = [ast.Assign([ast.Name(n.target.id, ast.Store())], vc('for_index', [kid]))] + n.body
        return [init] + hav + [ast.While(vc('for_test', [kid, loc]), body, [])]

    def visit_While(self, n):
        fn = '.'.join(self.fn)
        k = self.k.get(fn, 0)
        self.k[fn] = k + 1
        self.generic_visit(n)
        key = (self.mod, fn, k)
        if not any(l == key[:2] or l == key for l in self.loops):
            return n
        names = assigned(n.body)
        # loop-modified names are captured and havocked by the rule
        cap = lambda nm: ast.Tuple([ast.Constant(nm), ast.Call(
            ast.Attribute(ast.Name('__vc__', ast.Load()), 'grab', ast.Load()),
            [ast.Lambda(ast.arguments([], [], None, [], [], None, []), ast.Name(nm, ast.Load()))], [])], ast.Load())
        head = []
        kid = ast.Constant(repr(key))
        vc = lambda f, args: ast.Call(ast.Attribute(ast.Name('__vc__', ast.Load()), f, ast.Load()), args, [])
        lam = lambda e: ast.Lambda(ast.arguments([], [], None, [], [], None, []), e)
        loc = vc('scope', [ast.Call(ast.Name('locals', ast.Load()), [], [])])
        init = ast.Expr(vc('loop_init', [kid, loc, ast.Tuple([ast.Constant(x) for x in names], ast.Load())]))
        hav = [ast.Assign([ast.Name(x, ast.Store())], vc('havoc', [kid, ast.Constant(x)])) for x in names]
        # names not bound before the loop stay unbound: havoc returns a poison
        n.test = vc('loop_test', [kid, lam(n.test), loc])
        return [init] + hav + [n]


class VC:
    """Runtime support called by transformed code."""

    def __init__(self):
        self.generic = False
        self.loopspec = {}
        self.active = {}

    def loop_iter(self, it, carried):
        self.generic = False
        if isinstance(it, types.GeneratorType) and it.gi_code is arr.generic_range.__code__:
            if carried:
                raise Unsupported('loop over a grid axis with loop-carried values: %s' % ', '.join(carried))
            return self._gen(it)
        return it

    def _gen(self, it):
        for x in it:
            yield x
        self.generic = True

    def was_generic(self):
        g = self.generic
        self.generic = False
        return g

    def poison(self, n):
        return Poison(n)

    # Cython helpers
    def setpart(self, a, key, part, val):
        old = a[key]
        if not isinstance(old, Poly):
            old = Poly.of(old)
        val = Poly.of(val)
        if not val.is_real():
            raise ContractFailure('complex value assigned to a real part')
        new = (val + 1j*old.imag) if part == 'real' else (old.real + 1j*val)
        a[key] = new

    def arg(self, name, val, base, ndim):
        """Typed Cython array argument: rank and kind must match, otherwise the call raises."""
        if base in ('list',):
            if not isinstance(val, list):
                raise ContractFailure('argument %s must be a list' % name)
            return val
        if base in ('int', 'int_t', 'unsigned int', 'np.int64_t', 'double', 'real_t', 'float', 'np.float64_t') and ndim is None:
            if isinstance(val, (SArr, list, dict)) or (hasattr(val, 'ndim') and getattr(val, 'ndim') > 0):
                raise ContractFailure('argument %s must be a number' % name)
            if base in ('int', 'int_t', 'unsigned int', 'np.int64_t') and isinstance(val, Poly):
                for m in val.t:
                    pass
            return val
        if ndim is None:
            return val
        if not isinstance(val, (SArr, _np.ndarray)) and not hasattr(val, 'vc_array'):
            raise ContractFailure('argument %s must be an array of rank %d' % (name, ndim))
        if val.ndim != ndim:
            raise ContractFailure('argument %s: rank %d array expected, got rank %d' % (name, ndim, val.ndim))
        k = val.dtype.kind
        if base in ('complex_t', 'np.complex128_t') and k != 'c':
            raise ContractFailure('argument %s: complex array expected' % name)
        if base in ('real_t', 'np.float64_t', 'double', 'T') and k == 'c':
            raise ContractFailure('argument %s: real array expected' % name)
        return val

    def cint(self, v):
        if isinstance(v, Poly) and not v.is_const():
            at = [poly.ATOMS[a] for m in v.t for a, _ in m]
            if all(a.kind == 'int' for a in at):
                return v
            raise Unsupported('symbolic real assigned to an integer variable')
        return int(v) if not isinstance(v, (Idx,)) else v

    # while-loop rule ---------------------------------------------------------
    def scope(self, d):
        return d

    def grab(self, f):
        try:
            return f()
        except NameError:
            return None

    def loop_init(self, key, loc, names):
        spec = self._spec(key)
        self.active[key] = dict(n=0, names=names, loc=dict(loc))
        spec.init(dict(loc))
        self.active[key]['havoc'] = spec.havoc(dict(loc), names)

    def havoc(self, key, name):
        h = self.active[key]['havoc']
        if name in h:
            return h[name]
        loc = self.active[key]['loc']
        return Poison(name)

    def loop_test(self, key, test, loc):
        spec = self._spec(key)
        st = self.active[key]
        st['n'] += 1
        if st['n'] == 1:
            return bool(test())
        spec.preserved(dict(loc))
        raise PathEnd('loop iteration checked')

    # counted loops
    def for_init(self, key, rng, loc, names):
        self.active.pop(key, None)
        spec = self._spec(key)
        self.active.setdefault(key, {}).update(n=0, names=names, loc=dict(loc))
        spec.init(rng, dict(loc))
        self.active[key]['havoc'] = spec.havoc(dict(loc), names)

    def for_test(self, key, loc):
        spec = self._spec(key)
        st = self.active[key]
        st['n'] += 1
        if st['n'] == 1:
            return spec.test()
        spec.preserved(dict(loc))
        raise PathEnd('loop iteration checked')

    def for_index(self, key):
        return self._spec(key).index()

    # C pointers and vectors
    def addr(self, a, ix):
        return a.addr(ix)

    def vector(self):
        from .seq import Vec
        return Vec()

    def _spec(self, key):
        k = ast.literal_eval(key)
        if len(k) == 6:           # the invariant is chosen by what the loop writes
            a = self.active.setdefault(key, {})
            if 'spec' not in a:
                a['spec'] = self.loopspec[tuple(k[:4])](k[4], dict(k[5]))
            return a['spec']
        return self.loopspec.get(tuple(k)) or self.loopspec[tuple(k[:2])]


# ------------------------------------------------------------------------------------------ Cython text
CTYPES = r'(?:np\.ndarray\[[^\]]*\]|unsigned int|int_t|real_t|complex_t|np\.\w+_t|double|float|int|long|T|list|object|bint|Py_ssize_t|size_t)'


def decython(src):
    """Reduce Cython text to Python text (mechanical, line based).

    Dropped: cimport/ctypedef lines, C declarations without a value, C types of locals (integer-typed assignments keep
    an integrality check), `nogil`.  Kept: typed array arguments as run-time rank/kind checks.  `x.real = e` on an
    element becomes a call.  Memoryview casts are identities with the same rank/kind check.
    """
    # typed function headers (joined over lines)
    out = []
    lines = [_uncomment(l) for l in src.split('\n')]
    i = 0
    types_ = {}
    skip_indent = None
    while i < len(lines):
        ln = lines[i]
        st = ln.strip()
        ind = ln[:len(ln)-len(ln.lstrip())]
        if skip_indent is not None:
            if st and len(ind) > len(skip_indent):
                i += 1
                continue
            if not st:
                i += 1
                continue
            skip_indent = None
        if re.match(r'(from\s+\S+\s+)?cimport\b', st) or (st.startswith('ctypedef') and not st.endswith(':')):
            i += 1
            continue
        if st.startswith('ctypedef fused'):
            skip_indent = ind
            i += 1
            continue
        m = re.match(r'(cdef|cpdef|def)\s+(.*)', st)
        if m and m.group(1) == 'def' or (m and '(' in st and re.match(r'(cdef|cpdef)\s+(inline\s+)?[\w\.\s]+\(', st)):
            # header: join until the closing parenthesis and colon
            j = i
            head = lines[j]
            while head.count('(') > head.count(')') or not re.search(r':\s*(#.*)?$', head):
                j += 1
                head += ' ' + lines[j].strip()
            body = next((l for l in lines[j+1:] if l.strip()), ind + '    pass')
            out.extend(_header(head, ind, body[:len(body)-len(body.lstrip())]))
            i = j + 1
            types_ = {}
            continue
        if st == 'cdef:':
            j = i + 1
            while j < len(lines) and (not lines[j].strip() or len(lines[j])-len(lines[j].lstrip()) > len(ind)):
                lines[j] = ind + 'cdef ' + lines[j].strip() if lines[j].strip() else ''
                j += 1
            i += 1
            continue
        m = re.match(r'cdef\s+(.*)$', st)
        if m:
            decl = re.sub(r'^double\s+complex\b', 'object', m.group(1))
            decl = re.sub(r'^real\b', 'double', decl)
            m2 = re.match(r'vector\[\w+\]\s+(.*)$', decl)
            if m2:
                for nm in m2.group(1).split(','):
                    out.append('%s%s = __vc__.vector()' % (ind, nm.strip()))
                i += 1
                continue
            m2 = re.match(r'(np\.ndarray\[\s*(\w+|np\.\w+)\s*,\s*ndim\s*=\s*(\d+)[^\]]*\]|(\w+|np\.\w+)\[([:,1 ]*)\]|' + CTYPES + r')\s+(.*)$', decl)
            if not m2:
                raise Unsupported('Cython declaration not understood: %s' % st)
            rest = m2.group(6)
            base = m2.group(2) or m2.group(4) or m2.group(1).strip()
            nd = int(m2.group(3)) if m2.group(3) else (m2.group(5).count(',')+1 if m2.group(5) is not None else None)
            if '=' in rest:
                nm, val = [x.strip() for x in rest.split('=', 1)]
                if nd is not None:
                    out.append('%s%s = __vc__.arg(%r, %s, %r, %d)' % (ind, nm, nm, val, base, nd))
                elif base in ('int', 'unsigned int', 'int_t', 'long', 'Py_ssize_t'):
                    types_[nm] = 'int'
                    out.append('%s%s = __vc__.cint(%s)' % (ind, nm, val))
                else:
                    out.append('%s%s = %s' % (ind, nm, val))
            else:
                for nm in rest.split(','):
                    if base in ('int', 'unsigned int', 'int_t', 'long', 'Py_ssize_t'):
                        types_[nm.strip()] = 'int'
                out.append(ind + 'pass')
            i += 1
            continue
        if re.match(r'with\s+nogil\s*:', st):
            out.append(ind + 'if True:')
            i += 1
            continue
        m = re.match(r'(.+?)\.(real|imag)\s*=(?!=)\s*(.*)$', st)
        if m and m.group(1).endswith(']'):
            tgt = m.group(1)
            b = tgt.index('[')
            out.append('%s__vc__.setpart(%s, (%s), %r, %s)' % (ind, tgt[:b], tgt[b+1:-1], m.group(2), m.group(3)))
            i += 1
            continue
        m = re.match(r'(\w+)\s*=(?!=)\s*(.*)$', st)
        if m and types_.get(m.group(1)) == 'int':
            out.append('%s%s = __vc__.cint(%s)' % (ind, m.group(1), m.group(2)))
            i += 1
            continue
        ln = re.sub(r'(?<=[(,])(\s*)&(\w+)\[([^\]]*)\]', r'\1__vc__.addr(\2, (\3))', ln)
        out.append(re.sub(r'<[\w\. ]+\*?>', '', ln) if re.search(r'=\s*<\w', ln) else ln)
        i += 1
    return '\n'.join(out)


def _uncomment(l):
    q = None
    for i, ch in enumerate(l):
        if q:
            if ch == q and l[i-1] != '\\':
                q = None
        elif ch in '"\'':
            if l[i:i+3] == ch*3:
                return l
            q = ch
        elif ch == '#':
            return l[:i].rstrip()
    return l


def _header(head, ind, bind):
    m = re.match(r'\s*(?:def|cdef|cpdef)\s+(?:inline\s+)?(?:.*?\s)?(\w+)\s*\((.*)\)\s*(?:nogil)?\s*(?:except[^:]*)?:\s*(#.*)?$', head)
    if not m:
        raise Unsupported('Cython header not understood: %s' % head)
    name, args = m.group(1), m.group(2)
    parts, depth, cur = [], 0, ''
    for ch in args:
        if ch in '[(':
            depth += 1
        if ch in '])':
            depth -= 1
        if ch == ',' and depth == 0:
            parts.append(cur)
            cur = ''
        else:
            cur += ch
    if cur.strip():
        parts.append(cur)
    names, checks = [], []
    for p in parts:
        p = p.strip()
        p = re.sub(r'^[\w\.]+\s*\*\s*(?=\w)', '', p) if re.match(r'[\w\.]+\s*\*\s*\w', p) else p
        m1 = re.match(r'np\.ndarray\[\s*([\w\.]+)\s*,\s*ndim\s*=\s*(\d+).*?\]\s*(\w+)(.*)$', p)
        m2 = re.match(r'([\w\.]+)\[([:,1 ]*)\]\s+(\w+)(.*)$', p)
        m3 = re.match(r'(unsigned int|[\w\.]+)\s+(\w+)(.*)$', p)
        if m1:
            names.append(m1.group(3) + m1.group(4))
            checks.append((m1.group(3), m1.group(1), int(m1.group(2))))
        elif m2:
            names.append(m2.group(3) + m2.group(4))
            checks.append((m2.group(3), m2.group(1), m2.group(2).count(',')+1))
        elif m3 and not p.startswith('*'):
            names.append(m3.group(2) + m3.group(3))
            checks.append((m3.group(2), m3.group(1), None))
        else:
            names.append(p)
    out = ['%sdef %s(%s):' % (ind, name, ', '.join(names))]
    for nm, base, nd in checks:
        out.append('%s%s = __vc__.arg(%r, %s, %r, %r)' % (bind, nm, nm, nm, base, nd))
    if not checks:
        out.append('%spass' % bind)
    return out


# ------------------------------------------------------------------------------------------ the loader
_codecache = {}


class Loader:
    """A private import universe for one symbolic execution."""

    def __init__(self, fakes, loops=None, overrides=None, builtin=None):
        self.mods = {}
        self.vc = VC()
        self.vc.loopspec = loops or {}
        self.fakes = dict(fakes)
        self.files = set()
        self.overrides = overrides or {}      # module name -> source text or Fake
        b = dict(vars(builtins))
        b.update(range=v_range, min=_v_minmax('min'), max=_v_minmax('max'), pow=v_pow, print=lambda *a, **k: None,
                 __import__=self._import, xrange=v_range)
        b.update(builtin or {})
        self.builtins = b
        self.importlib = Fake('importlib', import_module=lambda n, p=None: self.load(n))

    def path(self, name):
        rel = name.replace('.', '/')
        p = os.path.join(REPO, rel)
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py'), True
        if os.path.exists(p + '.py'):
            return p + '.py', False
        m = re.match(r'(.*)/cython_(double|single)_(\w+)$', rel)
        if m:
            q = os.path.join(REPO, m.group(1), 'cython_%s.in' % m.group(3))
            if os.path.exists(q):
                return q, False
        return None, False

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if name in self.overrides and not isinstance(self.overrides[name], str):
            m = self.overrides[name]
            self.mods[name] = m
            self._attach(name, m)
            return m
        parent = name.rpartition('.')[0]
        if parent:
            self.load(parent)
            if name in self.mods:
                return self.mods[name]
        p, pkg = self.path(name)
        if p is None:
            raise ModuleNotFoundError('No module named %r' % name)
        m = types.ModuleType(name)
        m.__file__ = p
        m.__package__ = name if pkg else parent
        if pkg:
            m.__path__ = [os.path.dirname(p)]
        m.__dict__['__builtins__'] = self.builtins
        m.__dict__['__vc__'] = self.vc
        self.mods[name] = m
        self.files.add(os.path.relpath(p, REPO))
        try:
            exec(self._code(p, name), m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        self._attach(name, m)
        return m

    def _attach(self, name, m):
        parent, _, leaf = name.rpartition('.')
        if parent in self.mods:
            setattr(self.mods[parent], leaf, m)

    def _code(self, p, name):
        key = (p, name, tuple(sorted(map(repr, self.vc.loopspec))))
        c = _codecache.get(key)
        if c is None:
            src = open(p).read()
            if p.endswith('.in'):
                src = src.replace('{0}', '')
                if '{{' in src or '}}' in src:
                    src = src.replace('{{', '{').replace('}}', '}')
                src = decython(src)
            elif p.endswith('.pyx'):
                src = decython(src)
            tree = ast.parse(src, p)
            tree = Transform(name, list(self.vc.loopspec)).visit(tree)
            ast.fix_missing_locations(tree)
            c = compile(tree, p, 'exec')
            _codecache[key] = c
        return c

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__']
            for _ in range(level-1):
                pkg = pkg.rpartition('.')[0]
            full = pkg + ('.' + name if name else '')
        else:
            full = name
        if full == 'importlib':
            return self.importlib
        if full == 'spectralDNS' or full.startswith('spectralDNS.'):
            m = self.load(full)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f) and getattr(m, '__path__', None):
                        try:
                            self.load(full + '.' + f)
                        except ModuleNotFoundError:
                            pass
                return m
            return self.load(full.split('.')[0])
        if full in self.fakes:
            if fromlist:
                return self.fakes[full]
            return self.fakes[full.split('.')[0]]
        root = full.split('.')[0]
        if full.startswith('numpy._core') or full.startswith('numpy.core'):
            return builtins.__import__(name, globals, locals, fromlist, level)   # numpy's own lazy imports
        if root in self.fakes:
            raise ModuleNotFoundError('No module named %r' % full)
        return builtins.__import__(name, globals, locals, fromlist, level)
