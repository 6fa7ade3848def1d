"""Check driver: generate and discharge the obligations of one property, replay against the real code, decide."""
import argparse, importlib, json, os, pickle, re, subprocess, sys, tempfile, time, traceback
import numpy as _np
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from vc import poly, sym, arr, load, shen
from vc.poly import Poly, ATOMS
from vc.sym import Unsupported, BoundsError, ContractFailure, PathEnd, ST, SBool
from vc.arr import SArr
import z3

REPO = load.REPO
PY = '/opt/venv/bin/python'


class Verifier:
    def __init__(self, prop, tier='quick', seed=1):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.obls = []           # dicts
        self.cases = []
        self.functions = set()
        self.trusted = set()
        self.case_name = ''
        self.solver_s = 0.0
        self.queries = 0
        self.paths = 0
        self.files = set()
        self.vacuity = []
        self.seen = {}
        self.deadline = None
        self.backends = {}
        self.cross = 0
        self.shard = (0, 1)
        self.ncase = 0
        self.skip = re.compile(os.environ['VC_ONLY']) if os.environ.get('VC_ONLY') else None

    # ---------------------------------------------------------------- cases
    def case(self, name, fn, max_paths=400):
        """One proof: fn is run once per feasible path of the code under contract."""
        self.case_name = name
        self.ncase += 1
        if self.ncase % self.shard[1] != self.shard[0] or (self.skip and not self.skip.search(name)):
            return
        t = time.time()
        n0 = len(self.obls)

        def body():
            try:
                fn()
                self._reach()
            except PathEnd:
                self._reach()
                raise
            except (BoundsError, ContractFailure) as e:
                self.record('safety', False, 'refuted', '%s: %s' % (type(e).__name__, e), kind='safety', tb=traceback.format_exc(limit=-4))
            except Unsupported as e:
                self.record('meaning', False, 'undecided', 'outside the engine: %s' % e, kind='unsupported', tb=traceback.format_exc(limit=-4))
            except (poly.NeedsNumber, RecursionError) as e:
                self.record('meaning', False, 'undecided', 'outside the engine: %r' % e, kind='unsupported', tb=traceback.format_exc(limit=-4))
            except poly.Undefined as e:
                self.record('definedness', False, 'refuted', str(e), kind='safety', tb=traceback.format_exc(limit=-4))
            except Exception as e:
                self.record('no exception', False, 'undecided', '%s: %s' % (type(e).__name__, e), kind='exception', tb=traceback.format_exc(limit=-4))
        try:
            self.paths += sym.explore(body, max_paths=max_paths)
        except Unsupported as e:
            self.record('meaning', False, 'undecided', 'outside the engine: %s' % e, kind='unsupported')
        new = self.obls[n0:]
        self.cases.append(dict(name=name, obligations=len(new), s=round(time.time()-t, 3)))
        if not new:
            self.record('non-vacuity', False, 'undecided', 'the case generated no obligation', kind='unsupported')
        self.solver_s += ST.solver_s
        self.queries += ST.queries
        ST.solver_s = 0.0
        ST.queries = 0

    def _reach(self):
        f = sym.feasible()
        self.vacuity.append((self.case_name, f))
        if f is False:
            self.record('reachability', False, 'undecided', 'contradictory hypotheses on this path', kind='unsupported')

    def record(self, name, ok, status, detail='', kind='goal', backend='', model=None, tb=None, s=0.0):
        d = dict(name='%s: %s' % (self.case_name, name), ok=bool(ok), status=status, kind=kind, path=list(ST.labels))
        if detail:
            d['detail'] = detail[:3000]
        if backend:
            d['backend'] = backend
            self.backends[backend] = self.backends.get(backend, 0) + 1
        if model:
            d['model'] = model
        if tb:
            d['trace'] = tb[-3000:]
        if s:
            d['s'] = round(s, 3)
        self.obls.append(d)
        return ok

    # ---------------------------------------------------------------- obligations
    def eq(self, name, got, want):
        """got == want, element by element, under the current hypotheses."""
        if isinstance(got, SArr) or isinstance(want, SArr):
            return self._eq_arr(name, got, want)
        try:
            g, w = Poly.of(got), Poly.of(want)
        except TypeError:
            return self.record(name, got == want, 'discharged' if got == want else 'refuted', '%r vs %r' % (got, want), backend='evaluation')
        return self._eq(name, g, w)

    def _eq_arr(self, name, got, want):
        ok = True
        if not isinstance(got, SArr):
            return self.record(name, False, 'refuted', 'not an array: %r' % (got,))
        gv = got.val
        if isinstance(want, SArr):
            wv = want.val
        else:
            wv = _np.empty((), dtype=object)
            wv[()] = Poly.of(want)
        wv = _np.broadcast_to(wv, gv.shape) if wv.ndim <= gv.ndim else wv
        if wv.shape != gv.shape:
            return self.record(name, False, 'refuted', 'shape %r vs %r' % (gv.shape, wv.shape))
        for ix in _np.ndindex(gv.shape):
            lab = name
            if len(ix) > 1:
                lab += '[%s]' % ','.join(map(str, ix[:-1]))
            lab += '@' + got.grid.labels[got.pts[ix[-1]]]
            ok &= self._eq(lab, gv[ix], wv[ix])
        return ok

    def _eq(self, name, g, w):
        t = time.time()
        if not isinstance(g, Poly) or not isinstance(w, Poly):
            return self.record(name, False, 'undecided', 'not a number', kind='unsupported')
        d = g - w
        q = poly.clear_inverses(d)
        if not q.t:
            backend = 'normal form'
            # independent confirmation by z3 on the unsubtracted sides, when they are small enough
            if len(g.t) + len(w.t) <= 60:
                r = self._z3_eq(g, w)
                if r == z3.unsat:
                    backend = 'z3'
                elif r == z3.sat:
                    return self.record(name, False, 'undecided', 'normal form and z3 disagree', kind='unsupported')
            return self.record(name, True, 'discharged', backend=backend, s=time.time()-t)
        # not an identity: is it implied by the hypotheses?
        rt, it = sym.zpoly(q)
        neg = z3.Or(rt != 0, it != 0) if not q.is_real() else rt != 0
        r, s = sym.check([neg], [q])
        if r == z3.unsat:
            return self.record(name, True, 'discharged', backend='z3', s=time.time()-t)
        det = 'difference: %s' % poly.show(d)
        if r == z3.sat:
            if any(ATOMS[a].fn for a in self._deep(d)) and self._numerically_zero(d):
                return self.record(name, False, 'undecided', det + ' (opaque functions; numerically zero)', kind='unknown', s=time.time()-t)
            return self.record(name, False, 'refuted', det, backend='z3', model=self._model(s, q), s=time.time()-t)
        # unknown: a random rational point may refute it when there are no hypotheses on the atoms involved
        if not ST.hyps or self._random_refutes(q):
            return self.record(name, False, 'refuted', det + ' (nonzero at a random rational point satisfying the hypotheses)', backend='evaluation', s=time.time()-t)
        return self.record(name, False, 'undecided', det + ' (solver: unknown)', kind='unknown', s=time.time()-t)

    def _z3_eq(self, g, w):
        ginv = [g, w]
        gr, gi = sym.zpoly(g)
        wr, wi = sym.zpoly(w)
        s = z3.Solver()
        s.set('timeout', 2000)
        s.add(*sym.side_conditions(ginv))
        s.add(z3.Or(gr != wr, gi != wi))
        t = time.time()
        r = s.check()
        ST.solver_s += time.time()-t
        ST.queries += 1
        return r

    def _random_refutes(self, q):
        import random
        rnd = random.Random(7)
        env = {}

        def val(a):
            if a not in env:
                at = ATOMS[a]
                c = at.conj.id
                if c in env and c != a:
                    env[a] = env[c].conjugate()
                elif at.kind == 'complex':
                    env[a] = complex(rnd.randint(1, 9), rnd.randint(1, 9))
                else:
                    env[a] = rnd.randint(1, 9)
            return env[a]
        if ST.hyps:
            return False
        return abs(poly.evaluate(q, val)) > 1e-9

    def _deep(self, p):
        out, stack = set(), list(poly.atoms_of(p))
        while stack:
            a = stack.pop()
            if a in out:
                continue
            out.add(a)
            at = ATOMS[a]
            if at.rel is not None:
                stack += list(poly.atoms_of(at.rel))
            if at.fn:
                for q in at.fn[1]:
                    stack += list(poly.atoms_of(q))
        return out

    def _numerically_zero(self, d):
        """Does d vanish at random points that satisfy the hypotheses when max, min, abs, sqrt, pow and one-point sums have
        their meaning?  (False when no such point was found: then the solver's answer stands.)"""
        import random, math
        F = dict(max=lambda x, y: max(x.real, y.real), min=lambda x, y: min(x.real, y.real), abs=abs, sqrt=lambda x: abs(x)**.5,
                 pow=lambda x, y: x**y, gsum=lambda x: x, gmax=lambda *x: max(y.real for y in x), gmin=lambda *x: min(y.real for y in x))
        hits = 0
        for seed in range(240 if ST.hyps else 8):
            rnd = random.Random(seed)
            env = {}
            wide = seed % 3 if ST.hyps else 0

            def mag():
                return rnd.uniform(.1, 2)*(1 if not wide else math.exp(rnd.uniform(-2, 2)*wide*wide))

            def val(a):
                if a not in env:
                    at = ATOMS[a]
                    c = at.conj.id
                    if at.rel is not None:
                        env[a] = 1/poly.evaluate(at.rel, val)
                    elif at.fn is not None:
                        env[a] = F[at.fn[0]](*[complex(poly.evaluate(x, val)) for x in at.fn[1]])
                    elif c in env and c != a:
                        env[a] = complex(env[c]).conjugate()
                    elif at.kind == 'complex':
                        env[a] = complex(mag(), mag()*rnd.choice((-1, 1)))
                    elif at.kind == 'int':
                        env[a] = rnd.randint(1, 40)
                    else:
                        env[a] = mag()*(1 if at.positive or at.info and at.info[0] in ('nonneg', 'ge0', 'ge1') or seed % 2 else rnd.choice((-1, 1)))
                return env[a]
            try:
                if not all(sym.numeric(h, val) for h in ST.hyps):
                    continue
                size = sum(abs(poly.evaluate(Poly({m: c}), val)) for m, c in d.t.items())
                if abs(poly.evaluate(d, val)) > 1e-9*max(size, 1e-12):
                    return False
            except (OverflowError, ZeroDivisionError):
                continue
            except Exception:
                return False
            hits += 1
            if hits >= 8:
                break
        return hits > 0

    def _model(self, s, q):
        m = s.model()
        out = {}
        for a in list(poly.atoms_of(q))[:20]:
            r, i = sym.zvar(a)
            try:
                v = [str(m.eval(r, model_completion=True))]
                if i is not None:
                    v.append(str(m.eval(i, model_completion=True)))
                out[ATOMS[a].name] = v[0] if len(v) == 1 else '%s + %s i' % tuple(v)
            except Exception:
                pass
        for h in sym.HYP_POLYS:
            for a in poly.atoms_of(h):
                if ATOMS[a].name not in out and len(out) < 30 and ATOMS[a].kind != 'complex':
                    out[ATOMS[a].name] = str(m.eval(sym.zvar(a)[0], model_completion=True))
        return out

    def true(self, name, cond):
        """A (possibly symbolic) truth value holds under the hypotheses."""
        t = time.time()
        if not isinstance(cond, SBool):
            return self.record(name, bool(cond), 'discharged' if cond else 'refuted', backend='evaluation')
        r, s = sym.check([z3.Not(cond.z)], cond.polys)
        if r == z3.unsat:
            return self.record(name, True, 'discharged', backend='z3', s=time.time()-t)
        if r == z3.sat:
            return self.record(name, False, 'refuted', cond.text, backend='z3', model=self._model(s, cond.polys[0] if cond.polys else Poly({})), s=time.time()-t)
        # second opinion
        r2 = cvc5_check(s, 20)
        if r2 == 'unsat':
            return self.record(name, True, 'discharged', backend='cvc5', s=time.time()-t)
        return self.record(name, False, 'undecided', cond.text + ' (solver: unknown)', kind='unknown', s=time.time()-t)

    def same_object(self, name, a, b):
        """b is (a view of) the same storage as a."""
        ok = a is b or (isinstance(a, SArr) and isinstance(b, SArr) and a.val.__array_interface__['data'] == b.val.__array_interface__['data'] and a.val.shape == b.val.shape)
        return self.record(name, ok, 'discharged' if ok else 'refuted', '' if ok else 'a different array is returned', backend='evaluation')

    def snapshot(self, **arrays):
        return {k: (a, a.val.copy()) for k, a in arrays.items() if isinstance(a, SArr)}

    def unchanged(self, name, snap):
        for k, (a, v) in snap.items():
            bad = [ix for ix in _np.ndindex(v.shape) if not a.val[ix].same(v[ix])]
            if bad:
                self.record('%s: %s unchanged' % (name, k), False, 'refuted', 'modified at %r: %s' % (bad[0], poly.show(a.val[bad[0]])), kind='frame')
            else:
                self.record('%s: %s unchanged' % (name, k), True, 'discharged', kind='frame', backend='normal form')


def cvc5_check(solver, seconds):
    try:
        txt = '(set-logic ALL)\n' + solver.to_smt2()
        p = subprocess.run(['cvc5', '--tlimit=%d' % (seconds*1000), '--lang=smt2', '-'], input=txt, capture_output=True, text=True, timeout=seconds+10)
        return p.stdout.strip().split('\n')[0]
    except Exception:
        return 'unknown'


# ------------------------------------------------------------------------------------------ decision
def known_findings(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))['findings'] if k['property'] == prop and k.get('status', 'open') == 'open']


def matches(k, name):
    return any(re.search(r, name) for r in k['match'])


def replay_run(prop, tier, seed, timeout):
    env = dict(os.environ, VC_REPO=REPO, PYTHONPATH='', VERIF_SEED=str(seed), VERIF_TIER=tier, PYTHONDONTWRITEBYTECODE='1',
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', NUMBA_NUM_THREADS='1')
    out = open('/tmp/vc_replay_%s_%d.out' % (prop, os.getpid()), 'w+')
    p = subprocess.Popen([PY, os.path.join(VERIF, 'replay', prop + '.py')], stdout=out, stderr=subprocess.STDOUT,
                         env=env, cwd='/tmp', start_new_session=True)
    return p, out


MERGE = ('obls', 'cases', 'functions', 'trusted', 'solver_s', 'queries', 'paths', 'files', 'vacuity', 'backends')


def prove(mod, V, shard):
    V.shard = shard
    try:
        mod.prove(V)
    except Exception as e:
        V.case_name = 'driver'
        V.record('proof script', False, 'undecided', repr(e), kind='exception', tb=traceback.format_exc())


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--no-replay', action='store_true')
    ap.add_argument('--no-proof', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    ev_path = os.path.join(VERIF, 'evidence', prop + '.json')
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    rp_path = os.path.join(VERIF, 'evidence', prop + '.replay.json')
    have_replay = os.path.exists(os.path.join(VERIF, 'replay', prop + '.py')) and not a.no_replay
    proc = replay_run(prop, tier, seed, 800) if have_replay else None
    V = Verifier(prop, tier, seed)
    if not a.no_proof:
        mod = importlib.import_module('contracts.' + prop)
        workers = 1 if a.v else int(os.environ.get('VC_WORKERS', '5'))
        procs = []
        for w in range(1, workers):
            tmp = tempfile.TemporaryFile()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    W = Verifier(prop, tier, seed)
                    prove(mod, W, (w, workers))
                    tmp.write(pickle.dumps({k: getattr(W, k) for k in MERGE}))
                    tmp.flush()
                    code = 0
                finally:
                    os._exit(code)
            procs.append((pid, tmp, w))
        prove(mod, V, (0, workers))
        for pid, tmp, w in procs:
            _, st = os.waitpid(pid, 0)
            if st:
                V.case_name = 'driver'
                V.record('worker %d' % w, False, 'undecided', 'proof worker ended with status %d' % st, kind='exception')
                continue
            tmp.seek(0)
            d = pickle.loads(tmp.read())
            tmp.close()
            for k, v in d.items():
                o = getattr(V, k)
                if isinstance(o, list):
                    o.extend(v)
                elif isinstance(o, set):
                    o |= v
                elif isinstance(o, dict):
                    for x, y in v.items():
                        o[x] = o.get(x, 0) + y
                else:
                    setattr(V, k, o + v)
    proof_s = time.time()-t0
    rep = None
    rep_err = None
    if proc:
        p, out = proc
        limit = 780 if tier == 'quick' else 3000
        try:
            p.wait(timeout=max(10, limit-(time.time()-t0)))
        except subprocess.TimeoutExpired:
            import signal
            os.killpg(p.pid, signal.SIGKILL)
            rep_err = 'bounded run stopped after %d s' % limit
        out.seek(0)
        txt = out.read()
        out.close()
        os.unlink(out.name)
        for ln in txt.split('\n'):
            if ln.startswith('VCJSON '):
                rep = json.loads(ln[7:])
        if rep is None:
            if rep_err is None:
                rep_err = 'bounded run gave no result: ' + txt[-1500:]
            lines = txt.split('\n')
            got = []
            for ln in lines:
                if ln.startswith('VCFAIL '):
                    try:
                        got.append(json.loads(ln[7:]))
                    except ValueError:
                        pass
            if p.returncode in (-11, -6, -7, -8):
                at = [ln[5:] for ln in lines if ln.startswith('VCAT ')]
                got.append(dict(name=(at[-1] if at else 'bounded run') + ': the process crashed', error='signal %d' % -p.returncode))
            if got:
                rep = dict(evaluations=len(got), failures=got, samples=[], errors=[rep_err[:300]])

    kf = known_findings(prop)
    printed = set()

    def is_known(name):
        for k in kf:
            if matches(k, name):
                printed.add(k['id'])
                return True
        return False

    refuted = [o for o in V.obls if o['status'] == 'refuted']
    undecided = [o for o in V.obls if o['status'] == 'undecided']
    r_new = [o for o in refuted if not is_known(o['name'])]
    u_known = [o for o in undecided if is_known(o['name'])]
    conc = (rep or {}).get('failures', [])
    c_new = [f for f in conc if not is_known(f['name'])]
    n_obl = len(V.obls)
    n_dis = sum(o['status'] == 'discharged' for o in V.obls)
    for k in kf:
        if k['id'] in printed:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['text']))
    uniq = {}
    for o in V.obls:
        uniq.setdefault((o['name'], o['status']), o)
    mod_meta = {}
    if not a.no_proof:
        mod_meta = dict(getattr(mod, 'META', {}))
    cov = dict(
        obligations=n_obl, discharged=n_dis,
        checker_cmd='python3-vt vc/run.py %s' % prop,
        trusted_base=sorted(set(mod_meta.get('trusted', [])) | V.trusted),
        functions_under_contract=mod_meta.get('functions', []),
        back_ends=V.backends, solver_queries=V.queries, solver_s=round(V.solver_s, 2), paths=V.paths,
        undecided=[dict(name=o['name'], why=o.get('detail', '')[:300]) for o in undecided][:20],
        refuted_known=[o['name'] for o in refuted if o not in r_new][:40],
        reachability=dict(checked=len(V.vacuity), satisfiable=sum(f is True for _, f in V.vacuity),
                          unknown=sum(f is None for _, f in V.vacuity)),
        cases=V.cases, source_files=sorted(V.files),
        bounded_cross_check=dict(label='bounded, never counted as proved', evaluations=(rep or {}).get('evaluations', 0),
                                 samples=(rep or {}).get('samples', []), error=rep_err,
                                 errors=(rep or {}).get('errors', []),
                                 note=mod_meta.get('bounded', '')),
        samples=[o['name'] for o in list(uniq.values())[:8]],
    )
    level = mod_meta.get('level', 'proof')
    if level == 'other':
        cov['explanation'] = mod_meta.get('explanation', '')
    violations = 0
    rc = 0
    final = None
    hard = [o for o in r_new]
    if c_new:
        rc = 1
        violations = len(c_new)
        final = 'VIOLATION property=%s replay=%s' % (prop, rp_path)
    elif hard:
        rc = 1
        violations = len(hard)
        final = 'VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp_path)
    ev = dict(property=prop, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed, level=level, coverage=cov,
              assumptions=mod_meta.get('assumptions', []), wall_s=round(time.time()-t0, 2), violations=violations)
    with open(ev_path, 'w') as f:
        json.dump(ev, f, indent=1)
    if rc:
        with open(rp_path, 'w') as f:
            json.dump(dict(property=prop, failing_inputs=c_new, failed_obligations=hard[:20],
                           rerun='cd /verif && VERIF_SEED=%d VERIF_TIER=%s python3-vt vc/run.py %s' % (seed, tier, prop),
                           rerun_concrete='VC_REPO=%s VERIF_SEED=%d VERIF_TIER=%s %s /verif/replay/%s.py' % (REPO, seed, tier, PY, prop)), f, indent=1)
    elif os.path.exists(rp_path):
        os.unlink(rp_path)
    print('%s: %d obligations, %d discharged, %d refuted (%d known), %d undecided; bounded: %d evaluations, %d failures%s; proof %.1fs, total %.1fs'
          % (prop, n_obl, n_dis, len(refuted), len(refuted)-len(r_new), len(undecided), (rep or {}).get('evaluations', 0), len(conc),
             '; ' + rep_err[:300] if rep_err else '', proof_s, time.time()-t0))
    for o in (r_new + undecided)[:12 if not a.v else 100]:
        print('  [%s] %s -- %s' % (o['status'], o['name'], o.get('detail', '')[:400 if not a.v else 2000]))
        if a.v and 'trace' in o:
            print(o['trace'])
    for f in c_new[:6 if not a.v else 50]:
        print('  [input] %s' % json.dumps(f)[:600])
    if (rep or {}).get('errors'):
        print('  [bounded run errors] %s' % rep['errors'])
    if final:
        print(final)
    sys.stdout.flush()
    if rc == 0 and n_dis == 0 and level == 'proof' and (rep is None):
        print('no obligation was discharged and no bounded run completed')
        return 2
    return rc


if __name__ == '__main__':
    sys.exit(main())
