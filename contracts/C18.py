"""Derived fields of the periodic solvers: contracts of get_*, set_velocity and project; frame: everything but the declared outputs."""
from .common import *
import numpy as _np
from vc.sym import Unsupported

META = dict(
    functions=['NS.get_velocity', 'NS.get_curl', 'NS.get_pressure', 'NS.get_divergence', 'NS.set_velocity', 'NS.compute_curl', 'NS2D.get_curl',
               'NS2D.get_divergence', 'VV.get_velocity', 'VV.get_curl', 'VV.get_divergence', 'VV.compute_velocity', 'MHD.get_divergence', 'Bq2D.get_Ur',
               'Bq2D.get_rho', 'Bq2D.get_velocity', 'maths.maths.project', 'maths.cross.cross1', 'maths.cross.cross2'],
    trusted=TRUSTED_FFT + TRUSTED_ENGINE,
    assumptions=['that the next right-hand side depends on the primary variable, the wavenumber data and the source only is the subject of C01-C05'],
    bounded='random fields on small meshes: values of all diagnostics, unchanged state and unchanged next right-hand side')


def prove(V):
    for dealias in DEALIAS:
        for solver in ('NS', 'NS2D', 'VV', 'MHD', 'Bq2D'):
            for what in WHAT[solver]:
                V.case('%s %s, %s' % (solver, what, dealias), lambda: diag(V, solver, what, dealias))
    for solver in ('NS', 'NS2D', 'VV', 'Bq2D'):
        V.case('%s: set and read back the velocity' % solver, lambda: roundtrip(V, solver))
    for dim in (2, 3):
        for aslist in (True, False):
            V.case('projection, %dD, wavenumbers %s' % (dim, 'per axis' if aslist else 'as one array'), lambda: project(V, dim, aslist))


WHAT = {'NS': ['get_velocity', 'get_curl', 'get_pressure', 'get_divergence', 'set_velocity'],
        'NS2D': ['get_velocity', 'get_curl', 'get_pressure', 'get_divergence', 'set_velocity'],
        'VV': ['get_velocity', 'get_curl', 'get_divergence', 'set_velocity'],
        'MHD': ['get_divergence'],
        'Bq2D': ['get_Ur', 'get_rho', 'get_velocity', 'get_curl', 'get_pressure', 'get_divergence', 'set_velocity']}
PRIMARY = {'NS': 'U_hat', 'NS2D': 'U_hat', 'VV': 'W_hat', 'MHD': 'UB_hat', 'Bq2D': 'Ur_hat'}
# context arrays a diagnostic may change (outputs and scratch)
MODIFIES = {'get_velocity': ['U'], 'get_curl': ['curl'], 'get_pressure': ['P'], 'get_divergence': [], 'set_velocity': ['U_hat'], 'get_Ur': ['Ur', 'U', 'rho'],
            'get_rho': ['rho']}
SCRATCH = {'NS2D': ['W_hat'], 'Bq2D': ['W_hat'], 'VV': ['U_hat']}     # not state: recomputed from the primary variable
RAW = ['u_dealias', 'ur_dealias', 'ub_dealias', 'ZZ_hat', 'dU']


def B(T, l):
    return stackv([bwd(T, x) for x in l])


def curl_hat(S, u):
    if S.dim == 3:
        return [1j*x for x in cross3(S.K, u)]
    return 1j*(S.K[0]*u[1] - S.K[1]*u[0])


def velocity_hat(S, solver, st):
    if solver == 'VV':
        return [1j*x for x in cross3([safe_div(k, S.K2) for k in S.K], st)]
    return [st[i] for i in range(S.dim)]


def prepare(S, solver):
    c = S.c
    u = c[PRIMARY[solver]]
    st = field(S, 'st', u.comps)
    u[...] = st
    P = None
    if 'P_hat' in c:
        P = field(S, 'p', ())
        c.P_hat[...] = P
    scribble(S, [n for n in ('U', 'P', 'curl', 'u_dealias', 'ub_dealias', 'ur_dealias', 'UB', 'Ur', 'ZZ_hat', 'dU') if n in c])
    for n in SCRATCH.get(solver, []):
        scribble(S, [n])
    return c, u, st, P


def frame(V, S, solver, what):
    c = S.c
    may = set(MODIFIES[what]) | set(RAW)
    if what != 'set_velocity':
        may |= set(SCRATCH.get(solver, []))
    if solver == 'Bq2D' and what in ('get_velocity', 'get_rho', 'get_Ur'):
        may.add('Ur')       # checked component by component
    if solver == 'Bq2D' and what == 'set_velocity':
        may.add('Ur_hat')
        may.add('u')
    if what == 'set_velocity' and solver in ('NS', 'NS2D'):
        may.add('u')
    names = [n for n, v in c.items() if (isinstance(v, SArr) or isinstance(v, list)) and n not in may and n != 'X']
    return V.snapshot(**ctx_arrays(c, names))


def diag(V, solver, what, dealias):
    S = periodic(V, solver, dealias)
    for S in rounds(V, S):
        c, u, st, P = prepare(S, solver)
        f = getattr(S.s, what, None)
        if f is None:
            raise Unsupported('%s has no %s' % (solver, what))
        vel = velocity_hat(S, solver, st)
        T = c.T
        extra = {}
        if what == 'get_velocity':
            want, out = B(T, vel), 'U'
        elif what == 'get_curl':
            if solver == 'VV':
                want = B(T, [st[i] for i in range(3)])
            else:
                w = curl_hat(S, vel)
                want = B(T, w) if S.dim == 3 else bwd(T, w)
            out = 'curl'
        elif what == 'get_pressure':
            want, out = bwd(T, -1j*P), 'P'
        elif what == 'get_divergence':
            d = S.K[0]*vel[0]
            for i in range(1, S.dim):
                d = d + S.K[i]*vel[i]
            want, out = bwd(T, 1j*d), None
        elif what == 'get_Ur':
            want, out = B(T, [st[i] for i in range(3)]), 'Ur'
        elif what == 'get_rho':
            want, out = bwd(T, st[2]), 'rho'
        elif what == 'set_velocity':
            comps = tuple(range(S.dim))
            phys = field(S, 'v', (S.dim,), T.pgrid(), 'float64')
            c.U[...] = phys
            want, out = stackv([fwd(T, phys[i]) for i in comps]), 'U_hat'
        snap = frame(V, S, solver, what)
        keep = {}
        if solver == 'Bq2D' and what == 'get_velocity':
            keep['rho'] = c.rho
        if solver == 'Bq2D' and what == 'get_rho':
            keep['U'] = c.U
        if solver == 'Bq2D' and what == 'set_velocity':
            keep['rho_hat'] = c.rho_hat
        snap2 = V.snapshot(**keep)
        keys = dict(c)
        r = f(**c)
        V.eq('%s: value' % what, r, want)
        if out is not None:
            V.eq('%s: stored in the context' % what, c[out], want)
        V.unchanged('%s: state' % what, snap)
        V.unchanged('%s: other components' % what, snap2)
        if solver == 'Bq2D' and what == 'set_velocity':
            V.eq('set_velocity: velocity part of the primary variable', c.Ur_hat[:2], want)
        V.true('%s: the context keeps its entries' % what, set(keys) == set(c) and all(c[k] is v for k, v in keys.items()))
        # a second call gives the same (no dependence on what the first one left behind)
        if what != 'set_velocity':
            V.eq('%s: called again' % what, f(**c), want)


def roundtrip(V, solver):
    S = periodic(V, solver)
    for S in rounds(V, S):
        c, u, st, P = prepare(S, solver)
        T = c.T
        phys = field(S, 'v', (S.dim,), T.pgrid(), 'float64')
        c.U[...] = phys
        S.s.set_velocity(**c)
        hat = [fwd(T, phys[i]) for i in range(S.dim)]
        if solver == 'VV':
            S.s.cross2(c.W_hat, c.K, c.U_hat)
            w = curl_hat(S, hat)
            V.eq('the primary variable is the curl', c.W_hat, stackv(w))
            div = sum((S.K[i]*hat[i] for i in range(1, 3)), S.K[0]*hat[0])
            sol = []
            for i in range(3):
                x = hat[i] - S.K[i]*safe_div(div, S.K2)
                for p, l in enumerate(S.U.spec.labels):
                    if l == 'z':
                        x.val[p] = Poly.of(0)
                sol.append(x)
            hat = sol
        arr.garbage(c.U, 'U')
        V.eq('read back', S.s.get_velocity(**c), B(T, hat))


def project(V, dim, aslist):
    S = periodic(V, 'NS' if dim == 3 else 'NS2D')
    for S in rounds(V, S):
        c = S.c
        u = field(S, 'u', (dim,))
        a = c.U_hat
        a[...] = u
        f = S.L.load('spectralDNS.maths').project
        K = c.K if aslist else stackv([k*(zeros(S, (), None, 'float64')+1) for k in S.K])
        snap = V.snapshot(**ctx_arrays(c, ['K', 'K2', 'K_over_K2', 'mask', 'Source']))
        r = f(a, K, c.K_over_K2)
        div = sum((S.K[i]*u[i] for i in range(1, dim)), S.K[0]*u[0])
        V.eq('the component along k is removed', r, stackv([u[i] - S.K[i]*safe_div(div, S.K2) for i in range(dim)]))
        V.same_object('in place', r, a)
        V.unchanged('wavenumbers', snap)
