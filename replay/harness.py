"""Concrete (real-code) harness.  Runs under /opt/venv/bin/python with REPO (default /repo) on the path.

`fresh(...)` gives a freshly imported solver module and its context for a given configuration.  Compiled
Cython code is never taken from /repo's (possibly stale) build products: `scratch_package` copies the
package sources into a scratch directory and compiles what is asked for from the current text.
"""
import os, sys, shutil, subprocess, tempfile, json, atexit, io, contextlib

REPO = os.environ.get('VC_REPO', '/repo')
PY = '/opt/venv/bin/python'
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('NUMBA_NUM_THREADS', '1')
sys.dont_write_bytecode = True

_scratch = None


def _cleanup():
    if _scratch and _scratch.startswith('/tmp/vc_'):
        shutil.rmtree(_scratch, ignore_errors=True)


def enter_scratch():
    """chdir into a private scratch directory (HDF5 files, numba caches) that is removed at exit."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='vc_', dir='/tmp')
        atexit.register(_cleanup)
    os.chdir(_scratch)
    os.environ['NUMBA_CACHE_DIR'] = os.path.join(_scratch, 'nbc')
    return _scratch


PRECISION = {
    "single": "\nctypedef np.complex64_t complex_t\nctypedef np.float32_t real_t\nctypedef np.int64_t int_t\n",
    "double": "\nctypedef np.complex128_t complex_t\nctypedef np.float64_t real_t\nctypedef np.int64_t int_t\n"}


def _template_precision():
    """The typedef blocks that optimization/setup.py substitutes, read from the current source."""
    src = open(os.path.join(REPO, 'spectralDNS/optimization/setup.py')).read()
    import ast
    try:
        for node in ast.parse(src).body:
            if isinstance(node, ast.Assign) and node.targets[0].id == 'precision':
                return ast.literal_eval(node.value)
    except Exception:
        pass
    return PRECISION


def scratch_package(modules=(), precisions=('double',), lusolve=False):
    """Copy the package's sources to scratch and compile the named Cython modules there."""
    d = enter_scratch()
    dst = os.path.join(d, 'pkg')
    if not os.path.isdir(dst):
        os.makedirs(dst)

        def ign(path, names):
            return [n for n in names if n.endswith(('.so', '.cpp', '.c', '.pyc')) or n == '__pycache__'
                    or (n.startswith('cython_') and n.endswith('.pyx'))]
        shutil.copytree(os.path.join(REPO, 'spectralDNS'), os.path.join(dst, 'spectralDNS'), ignore=ign)
        open(os.path.join(dst, 'spectralDNS', '.vc'), 'w').close()
    if not lusolve:
        # LUsolve's committed build may be stale; compile it on demand, else borrow the built one
        pass
    jobs = []
    optd = os.path.join(dst, 'spectralDNS', 'optimization')
    prec = _template_precision()
    for m in modules:
        for p in precisions:
            name = 'cython_%s_%s' % (p, m)
            src = open(os.path.join(optd, 'cython_%s.in' % m)).read()
            with open(os.path.join(optd, name + '.pyx'), 'w') as f:
                f.write(src.format(prec[p]))
            jobs.append((optd, name))
    if lusolve:
        jobs.append((os.path.join(dst, 'spectralDNS', 'shen'), 'LUsolve'))
    procs = [(j, _compile_one(*j)) for j in jobs]
    errs = []
    for j, p in procs:
        out = p.communicate()[0]
        if p.returncode:
            errs.append((j[1], out.decode()[-2000:]))
    if errs:
        raise RuntimeError('compile failed: %r' % errs)
    return dst


def _compile_one(d, name):
    import sysconfig, numpy
    ext = sysconfig.get_config_var('EXT_SUFFIX')
    inc = sysconfig.get_paths()['include']
    cmd = ('cd %s && %s -m cython --cplus -3 %s.pyx -o %s.cpp 2>&1 && '
           'g++ -w -O1 -fPIC -shared -fwrapv -DNPY_NO_DEPRECATED_API=0 -I%s -I%s %s.cpp -o %s%s 2>&1'
           % (d, PY, name, name, inc, numpy.get_include(), name, name, ext))
    return subprocess.Popen(['bash', '-c', cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


def purge():
    for k in list(sys.modules):
        if k == 'spectralDNS' or k.startswith('spectralDNS.'):
            del sys.modules[k]


_pkgdir = None


def use(pkgdir=None):
    """Choose which copy of the package is imported (default: the repository itself)."""
    global _pkgdir
    _pkgdir = pkgdir or REPO
    sys.path[:] = [p for p in sys.path if p not in (REPO,) and not p.endswith('/pkg')]
    sys.path.insert(0, _pkgdir)
    purge()


@contextlib.contextmanager
def quiet():
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        yield
    finally:
        sys.stdout = old


def fresh(solver, mesh=None, optimization='', precision='double', extra=(), context=True, sub=(), keep=False, **params):
    """Import the package anew (unless told to keep it) and return (solver module, context)."""
    if not keep:
        purge()
    if mesh is None:
        mesh = {'NS': 'triplyperiodic', 'VV': 'triplyperiodic', 'MHD': 'triplyperiodic',
                'NS2D': 'doublyperiodic', 'Bq2D': 'doublyperiodic'}.get(solver, 'channel')
    with quiet():
        import importlib
        sd = importlib.import_module('spectralDNS')
        config = sd.config
        defaults = dict(verbose=False)
        defaults.update(params)
        if optimization:
            defaults['optimization'] = optimization
        defaults['precision'] = precision
        config.update(defaults, mesh)
        s = sd.get_solver(mesh=mesh, parse_args=list(extra) + [solver] + list(sub))
        if not context:
            return s
        c = s.get_context()
    return s, c


def hermitian(np, space, rng, scale=1.0):
    """Random physical field and its transform."""
    from shenfun import Array, Function
    a = Array(space)
    a[:] = rng.standard_normal(a.shape)*scale
    f = Function(space)
    f = space.forward(a, f)
    return a, f


def relerr(np, a, b):
    a = np.asarray(a); b = np.asarray(b)
    if a.shape != b.shape:
        return float('inf')
    d = np.abs(a-b).max() if a.size else 0.0
    s = max(np.abs(b).max() if b.size else 0.0, np.abs(a).max() if a.size else 0.0, 1e-300)
    if not np.isfinite(d) or not np.isfinite(s):
        return float('inf')
    return float(d/s)


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.evals = 0
        self.fail = []
        self.samples = []
        self.errors = []

    def check(self, name, ok, **info):
        self.evals += 1
        if not ok:
            self.fail.append(dict(name=name, **{k: repr(v) if not isinstance(v, (int, float, str, list, dict, bool, type(None))) else v for k, v in info.items()}))
            if len(self.fail) <= 20:
                self._say('VCFAIL ' + json.dumps(self.fail[-1]))
        elif len(self.samples) < 6:
            self.samples.append(name)

    def _say(self, line):
        sys.__stdout__.write(line + '\n')
        sys.__stdout__.flush()

    def at(self, name):
        """Names what runs next, so that a crash of the process can be attributed."""
        self._say('VCAT ' + name)

    @contextlib.contextmanager
    def guard(self, name):
        """An exception of the code under test on a valid input is a failure of the property."""
        self.at(name)
        try:
            yield
        except (MemoryError, KeyboardInterrupt):
            raise
        except BaseException as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            here = os.path.dirname(os.path.abspath(__file__))
            if os.path.dirname(os.path.abspath(tb[-1].filename)) == here and isinstance(e, (AttributeError, TypeError, KeyError, ImportError)):
                # the harness could not address the code (a renamed helper, another signature): not a failure of the code
                self.errors.append('%s: %r at %s:%s' % (name, e, tb[-1].filename, tb[-1].lineno))
                return
            self.check('%s: no exception' % name, False, error='%s: %s' % (type(e).__name__, str(e)[:300]),
                       where=['%s:%d' % (f.filename, f.lineno) for f in tb[-3:]])

    def close(self, name, err, tol, **info):
        self.check(name, err <= tol, err=err, tol=tol, **info)

    def done(self):
        print('VCJSON ' + json.dumps(dict(evaluations=self.evals, failures=self.fail[:20],
                                          nfail=len(self.fail), samples=self.samples, errors=self.errors[:5])))
        sys.stdout.flush()
