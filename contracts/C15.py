"""Result and checkpoint output: HDF5File.update/close/check_if_kill and the update_components of the solvers."""
from .common import *
from vc.sym import compare, choose, ContractFailure
from vc.load import Fake, Comm

META = dict(
    functions=['spectralDNS.h5io.HDF5File.__init__, update, open, close, check_if_kill, update_components',
               'NSFile, VVFile, MHDFile, BqFile .update_components and the output declarations of get_context (NS, VV, MHD, NS2D, Bq2D)',
               'KMMFile, RBFile (two), CoupledFile, CoupledRK3File .update_components and the output declarations of get_context (KMM, KMMr, KMMRK3, KMM_RB, KMMRK3_RB, Coupled, CoupledRK3)'],
    trusted=TRUSTED_ENGINE + TRUSTED_FFT + [
        'ShenfunFile: the constructor leaves the file closed; write(step, fields, as_scalar) opens it, stores the current contents of every listed array under that step and closes it; '
        'open/close/attrs as in h5py; closing a closed file does nothing',
        'allreduce returns a value at least as large as the argument of this process and positive iff some process found the stop file',
        'os.listdir(os.getcwd()) lists the run directory'],
    assumptions=['the write and checkpoint intervals are positive',
                 'one, two and three declared solution levels are enumerated (the contexts declare one or two)'],
    bounded='real files of real runs of all periodic solvers and of channel solvers, compared with the recorded state; stop file; close without output')


class H5:
    def __init__(self, owner):
        self.owner = owner
        self.opened = True
        self.attrs = Attrs(self)

    def __bool__(self):
        return self.opened

    def close(self):
        self.opened = False

    def flush(self):
        pass


class Attrs:
    def __init__(self, h):
        self.h = h

    def _set(self, k, v):
        if not self.h.opened:
            raise ContractFailure('attribute of a closed file')
        self.h.owner.attrs[k] = v
        self.h.owner.world.log.append(('attr', self.h.owner, k, v))
    __setitem__ = modify = _set

    def create(self, name, data, **k):
        self._set(name, data)

    def __getitem__(self, k):
        return self.h.owner.attrs[k]

    def get(self, k, d=None):
        return self.h.owner.attrs.get(k, d)

    def __contains__(self, k):
        return k in self.h.owner.attrs

    def update(self, *a, **k):
        for x, y in dict(*a, **k).items():
            self._set(x, y)


def snapshot(fields):
    """Contents of the arrays at the time of writing."""
    out = {}
    for g, l in fields.items():
        out[g] = []
        for a in l:
            x = a[0] if isinstance(a, (tuple, list)) else a
            out[g].append((x, x.copy() if isinstance(x, SArr) else x))
    return out


class File:
    """Contract of ShenfunFile."""

    def __init__(self, world, name, space, backend='hdf5', mode='r', mesh='quadrature', **kw):
        self.world, self.name, self.space, self.mode = world, name, space, mode
        if backend != 'hdf5':
            raise Unsupported('back end %r' % (backend,))
        self.filename = name + '.h5'
        self.attrs = {}
        self.f = H5(self)
        self.f.close()
        world.files.append(self)
        world.log.append(('create', self))

    def open(self, mode='r+'):
        self.f = H5(self)
        self.world.log.append(('open', self))

    def close(self):
        self.f.close()
        self.world.log.append(('closed', self))

    def write(self, step, fields, **kw):
        self.open()
        self.world.log.append(('write', self, step, fields, kw, snapshot(fields)))
        self.close()


class World:
    def __init__(self):
        self.log, self.files, self.removed = [], [], []
        self.here = False
        self.elsewhere = 0
        self.rank = 0
        w = self

        class C(Comm):
            def Get_rank(self):
                return w.rank
            rank = property(lambda self: w.rank)

            def allreduce(self, x, op=None):
                return int(x) + w.elsewhere if op in (None, 'sum') else max(int(x), w.elsewhere)

            def bcast(self, x, root=0):
                raise Unsupported('bcast of a stop request')
        self.comm = C()
        self.mpi = Fake('mpi4py.MPI', COMM_WORLD=self.comm, MIN='min', MAX='max', SUM='sum', LOR='max', C_FLOAT_COMPLEX='fc', C_DOUBLE_COMPLEX='dc')
        self.os = Fake('os', getcwd=lambda: '/run', listdir=self.listdir, remove=self.remove, unlink=self.remove, curdir='.', sep='/')
        self.os.path = Fake('os.path', join=lambda *a: '/'.join(a), exists=self.exists, isfile=self.exists, abspath=lambda p: p if p.startswith('/') else '/run/'+p)

    def norm(self, p):
        return p if p.startswith('/') else '/run/' + (p[2:] if p.startswith('./') else p)

    def listdir(self, d='.'):
        if self.norm(d).rstrip('/').replace('/.', '') != '/run':
            raise ContractFailure('the stop file is looked for in %r' % (d,))
        return ['a.h5'] + (['killspectraldns'] if self.here else []) + ['b.py']

    def exists(self, p):
        return self.here if self.norm(p) == '/run/killspectraldns' else False

    def remove(self, p):
        self.removed.append(self.norm(p))

    def fakes(self, d):
        return {'os': self.os, 'os.path': self.os.path, 'mpi4py': Fake('mpi4py', MPI=self.mpi)}

    def find(self, suffix):
        return [f for f in self.files if f.name.endswith(suffix)]

    def writes(self, f):
        return [e for e in self.log if e[0] == 'write' and e[1] is f]


def prove(V):
    for levels in (1, 2, 3):
        for fresh in (True, False):
            V.case('HDF5File.update, %d level%s, %s' % (levels, 's' if levels > 1 else '', 'first call' if fresh else 'later call'),
                   lambda: unit(V, levels, fresh))
    for state in ('nothing written', 'written', 'open'):
        V.case('HDF5File.close, %s' % state, lambda: close(V, state))
    for solver in ('NS', 'VV', 'MHD', 'NS2D', 'Bq2D'):
        for d in DEALIAS[:1]:
            V.case('%s output %s' % (solver, d), lambda: periodic_output(V, solver, d))
    for solver in LEVELS:
        for rank in (0, 1):
            for quad in ('GC', 'GL'):
                V.case('%s output, process %d, %s points' % (solver, rank, quad), lambda: channel_output(V, solver, rank, quad))


# the solution levels a restart of each channel solver needs
LEVELS = {'KMM': {'0': {'U': 'U_hat'}, '1': {'U': 'U_hat0'}},
          'KMMr': {'0': {'U': 'U_hat'}, '1': {'U': 'U_hat0'}},
          'KMMRK3': {'0': {'U': 'U_hat'}},
          'KMM_RB': {'0': {'U': 'U_hat', 'phi': 'phi_hat'}, '1': {'U': 'U_hat0', 'phi': 'phi_hat0'}},
          'KMMRK3_RB': {'0': {'U': 'U_hat', 'phi': 'phi_hat'}},
          'Coupled': {'0': {'UP': 'UP_hat'}, '1': {'UP': 'UP_hat0'}},
          'CoupledRK3': {'0': {'UP': 'UP_hat'}}}


def channel_output(V, solver, rank, quad):
    from . import chancommon as cc, chanstep as cs
    W = World()
    W.rank = rank
    S = cc.channel(V, solver, '2/3-rule', rank=rank, quad=quad,
                   tweak=lambda F: (F.update(W.fakes(F)),
                                    setattr(F['shenfun'], 'ShenfunFile', lambda *a, **k: File(W, *a, **k))))
    c, p = S.c, S.params
    h = c.hdf5file
    for k in ('tstep', 'write_result', 'checkpoint', 't'):
        dict.__setitem__(p, k, params()[k])
    main = 'UP_hat' if 'UP_hat' in c else 'U_hat'
    for n in (main, main + '0', 'H_hat1', 'g', 'Sk'):
        if isinstance(c.get(n), SArr):
            c[n][...] = SArr.named(n, S.spec, c[n].comps, 'complex128')
    if 'phi_hat' in c:
        S.wallT = [poly.atom('Twall%d' % i, 'Twall%d' % i) for i in (0, 1)]
        for n in ('phi_hat', 'phi_hat0', 'phi_hat1'):
            if n in c:
                c[n][...] = cs.temperature(S, n)
    levels = LEVELS[solver]
    state = {n: c[n] for d in levels.values() for n in d.values()}
    due = {n: a.copy() for n, a in state.items()}
    for j in range(sym.choose(4, 'steps taken')):       # the evolved arrays stay the same ones; the levels move on after each step
        for n in (main, 'phi_hat', 'H_hat', 'N_hat'):
            if isinstance(c.get(n), SArr):
                c[n][...] = cs.temperature(S, 'phi%d' % j) if n == 'phi_hat' else SArr.named('%s%d' % (n, j), S.spec, c[n].comps, 'complex128')
        for n in (main, 'phi_hat'):
            if n in state:
                due[n] = due[n + '0'] = c[n].copy()
        S.s.end_of_tstep(c)
        for n in (main, 'phi_hat'):
            if n in state:
                V.same_object('the end of a step leaves the evolved array in place', c[n], state[n])
                V.eq('the end of a step leaves the solution alone', c[n], due[n])
                c[n][...] = cs.temperature(S, 'phi%dn' % j) if n == 'phi_hat' else SArr.named('%s%dn' % (n, j), S.spec, c[n].comps, 'complex128')
                due[n] = c[n].copy()
    arr.garbage(c.U, 'old physical velocity')
    if 'phi' in c:
        arr.garbage(c.phi, 'old physical temperature')
    want = {'U': [cc.evaluate(S, S.sp.B if (i == S.wall and main == 'U_hat') else S.sp.D, c.U_hat[i], 1, False) for i in range(3)]}
    if 'phi' in c:
        S.dealias = 'None'
        want['phi'] = [cs.evalT(S, c.phi_hat)]
    keep = V.snapshot(**{n: c[n] for n in (main, main + '0', 'H_hat1', 'g', 'Sk', 'phi_hat', 'phi_hat0', 'phi_hat1') if isinstance(c.get(n), SArr)})
    cp = h.checkpoint['data']
    V.true('the checkpoint declares the levels a restart needs', set(cp) >= set(levels))
    for l in set(cp) & set(levels):
        V.true('level %s declares its groups' % l, set(cp[l]) >= set(levels[l]))
        for g in set(cp[l]) & set(levels[l]):
            V.true('level %s, %s: one array' % (l, g), len(cp[l][g]) == 1)
            V.eq('level %s, %s is the array a restart needs' % (l, g), cp[l][g][0], due[levels[l][g]])
    exited = None
    try:
        h.update(p, **c)
    except SystemExit as e:
        exited = e
    check_update(V, W, p, h.checkpoint, h.results, False, exited)
    for e in W.writes(W.find('_w')[0]):
        V.true('the result groups are the documented ones', set(e[5]) == set(want))
        for g in want:
            for a, v in e[5].get(g, []):
                for i, w in enumerate(want[g]):
                    V.eq('stored field %s %d is the current one' % (g, i), v[i] if g == 'U' else v, w)
    for e in W.writes(W.find('_c')[0]):
        for g, l in e[5].items():
            name = levels.get(str(int(e[2])), {}).get(g)
            if name is not None:
                for a, v in l:
                    V.eq('the checkpoint stores the current %s' % name, v, due[name])
    V.unchanged('the solution', keep)


class P(dict):
    __getattr__ = dict.__getitem__
    __setattr__ = dict.__setitem__


def setup(V):
    W = World()
    U = shen.Universe(3)
    F = shen.fakes_periodic(U)
    F.update(W.fakes(F))
    F['shenfun'].ShenfunFile = lambda *a, **k: File(W, *a, **k)
    L = load.Loader(F)
    L.load('spectralDNS')
    m = L.load('spectralDNS.h5io')
    V.files |= L.files
    return W, U, m


def params(integer=True):
    p = P()
    p.tstep = poly.atom('tstep', 'tstep', kind='int', info=('ge1',))
    p.write_result = poly.atom('write_result', 'write_result', positive=True, kind='int')
    p.checkpoint = poly.atom('checkpoint', 'checkpoint', positive=True, kind='int')
    p.t = poly.atom('t', 't')
    p.filemode = 'MODE'
    return p


def due(p, name):
    return compare('==', Poly.of(p['tstep'] % p[name]), 0)


def unit(V, levels, fresh):
    W, U, m = setup(V)
    W.rank = choose(2, 'rank')
    W.here = bool(choose(2, 'stop file seen'))
    W.elsewhere = choose(2, 'stop file seen elsewhere')
    stop = W.here or W.elsewhere > 0
    sc, sr = object(), object()
    arrs = [SArr.named('u%d' % k, U.spec, (3,), complex) for k in range(levels)]
    phys = SArr.named('U', U.pgrid(1), (3,), float)
    data = {str(k): {'U': [arrs[k]], 'q': [arrs[k][0]]} for k in range(levels)}
    cp = {'space': sc, 'data': data}
    res = {'space': sr, 'data': {'U': [phys]}}
    refreshed = []
    ctx = {'a': object(), 'b': object()}

    class Out(m.HDF5File):
        def update_components(self, **kw):
            refreshed.append(len(W.log))
            V.true('update_components gets the context', set(kw) == set(ctx) and all(kw[k] is ctx[k] for k in ctx))
    h = Out('name', checkpoint=cp, results=res)
    V.true('nothing is opened before the first update', not W.files)
    p = params()
    if not fresh:
        # class invariant: two closed files of these names, spaces and modes
        h.cfile = File(W, 'name_c', sc, mode='MODE')
        h.wfile = File(W, 'name_w', sr, mode='MODE')
        h.cfile.attrs.update(tstep=poly.atom('old_tstep', 'old_tstep'), t=poly.atom('old_t', 'old_t'))
        W.log.clear()
    p0 = dict(p)
    exited = None
    try:
        h.update(p, **ctx)
    except SystemExit as e:
        exited = e
    invariant(V, W, h, sc, sr)
    V.true('the parameters are unchanged', set(p) == set(p0) and all(p[k] is p0[k] for k in p))
    check_update(V, W, p, cp, res, stop, exited, refreshed)
    V.true('the declared data are unchanged', h.checkpoint is cp and h.results is res and cp['data'] is data and
           all(set(data[k]) == {'U', 'q'} and data[k]['U'][0] is arrs[int(k)] for k in data) and len(data) == levels)
    V.true('the stop file is removed once, by process 0', W.removed == (['/run/killspectraldns'] if stop and W.rank == 0 else []))


def invariant(V, W, h, sc, sr):
    V.true('invariant: one checkpoint and one result file', len(W.files) == 2 and h.cfile is not h.wfile)
    for f, suf, sp in ((h.cfile, '_c', sc), (h.wfile, '_w', sr)):
        V.true('invariant: file %s has its name, space and mode' % suf, isinstance(f, File) and f.name.endswith(suf) and f.space is sp and f.mode == 'MODE')
        V.true('invariant: file %s is closed' % suf, not f.f)


def check_update(V, W, p, cp, res, stop, exited, refreshed=None, steps=None):
    wf, cf = W.find('_w')[0], W.find('_c')[0]
    ww, cw = W.writes(wf), W.writes(cf)
    V.true('exit if and only if a stop was requested', (exited is not None) == stop)
    if bool(due(p, 'write_result')):
        V.true('results are written once at a multiple of the interval', len(ww) == 1)
        for e in ww:
            V.eq('results carry the step number', Poly.of(e[2]), p['tstep'])
            V.true('all declared results are written', e[3] is res['data'] or same_fields(e[3], res['data']))
            V.true('results are stored as scalars', e[4].get('as_scalar') is True)
            if refreshed is not None:
                V.true('the fields are refreshed first, once', len(refreshed) == 1 and refreshed[0] <= W.log.index(e))
    else:
        V.true('no results between multiples of the interval', not ww)
    if stop or bool(due(p, 'checkpoint')):
        got = {}
        for e in cw:
            got.setdefault(str(int(e[2])), []).append(e[3])
        V.true('a checkpoint holds every declared level and nothing else', set(got) == set(cp['data']) and len(cw) == len(cp['data']))
        for k, v in cp['data'].items():
            V.true('level %s holds its declared arrays' % k, len(got.get(k, [])) == 1 and (got[k][0] is v or same_fields(got[k][0], v)))
        V.true('the checkpoint has step and time', 'tstep' in cf.attrs and 't' in cf.attrs)
        V.eq('the checkpoint carries the step number', Poly.of(cf.attrs['tstep']), p['tstep'])
        V.eq('the checkpoint carries the time', Poly.of(cf.attrs['t']), p['t'])
    else:
        V.true('no checkpoint between multiples of the interval', not cw)
        V.true('step and time of the last checkpoint stay', not any(e[0] == 'attr' and e[2] in ('t', 'tstep') and not is_zero(e[3]) for e in W.log))


def is_zero(v):
    return not Poly.of(v).t


def same_fields(a, b):
    return set(a) == set(b) and all(len(a[k]) == len(b[k]) and all(x is y for x, y in zip(a[k], b[k])) for k in a)


def close(V, state):
    W, U, m = setup(V)
    h = m.HDF5File('name', checkpoint={'space': None, 'data': {}}, results={'space': None, 'data': {}})
    if state != 'nothing written':
        h.cfile = File(W, 'name_c', None, mode='MODE')
        h.wfile = File(W, 'name_w', None, mode='MODE')
    if state == 'open':
        h.open()
        V.true('open opens both files', bool(h.cfile.f) and bool(h.wfile.f))
    h.close()
    V.true('closing leaves nothing open', all(not f.f for f in W.files))
    V.true('closing creates no file', len(W.files) == (0 if state == 'nothing written' else 2))


def shown(S, solver):
    """What the result file holds, by group: the contract of update_components."""
    c, U = S.c, S.U
    K = S.K
    if solver in ('NS', 'NS2D'):
        return {'U': bwd(c.T, c.U_hat), 'P': bwd(c.T, -1j*c.P_hat)}
    if solver == 'VV':
        k = [safe_div(x, S.K2) for x in K]
        w = c.W_hat
        u = stackv([1j*(k[(i+1) % 3]*w[(i+2) % 3] - k[(i+2) % 3]*w[(i+1) % 3]) for i in range(3)])
        return {'U': bwd(c.T, u), 'curl': bwd(c.T, w)}
    if solver == 'MHD':
        return {'UB': bwd(c.T, c.UB_hat)}
    return {'UR': bwd(c.T, c.Ur_hat)}


def periodic_output(V, solver, dealias):
    W = World()
    dim = CASES[solver]
    F = W.fakes({})
    S = periodic(V, solver, dealias, mask=False, fakes=F, tweak=lambda F: setattr(F['shenfun'], 'ShenfunFile', lambda *a, **k: File(W, *a, **k)))
    c, p = S.c, S.params
    h = c.hdf5file
    for k in ('tstep', 'write_result', 'checkpoint', 't'):
        p[k] = params()[k]
    for name in ('U_hat', 'UB_hat', 'Ur_hat', 'W_hat', 'P_hat', 'U', 'P', 'curl', 'UB', 'Ur', 'dU', 'Source'):
        if isinstance(c.get(name), SArr) and not (solver in ('MHD', 'Bq2D') and name in ('U', 'U_hat', 'B', 'B_hat')):
            a = c[name]
            a[...] = SArr.named(name, a.grid, a.comps, a.dtype.type)
    want = shown(S, solver)
    snap = V.snapshot(u=c.u, dU=c.dU)
    V.true('level 0 of the checkpoint is the primary variable', holds(h.checkpoint, '0', c.u))
    V.true('the spaces belong to the stored arrays', h.checkpoint['space'].ncomp == c.u.comps)
    try:
        h.update(p, **c)
        exited = None
    except SystemExit as e:
        exited = e
    check_update(V, W, p, h.checkpoint, h.results, False, exited)
    for e in W.writes(W.find('_w')[0]):
        got = e[5]
        V.true('the result groups are the documented ones', set(got) == set(want))
        for g in want:
            for a, v in got.get(g, []):
                V.eq('%s: stored field %s is the current one' % (solver, g), v, want[g])
    V.unchanged('the solution', snap)
    for e in W.writes(W.find('_c')[0]):
        if int(e[2]) == 0:
            for l in e[5].values():
                for a, v in l:
                    if isinstance(v, SArr) and v.comps == c.u.comps:
                        V.eq('%s: the checkpoint stores the current state' % solver, v, c.u)


def holds(cp, level, arr_):
    return level in cp['data'] and any(a is arr_ or (isinstance(a, SArr) and a.val is arr_.val) for l in cp['data'][level].values() for a in l)
