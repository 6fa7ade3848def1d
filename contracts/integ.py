"""Driving the real integrators with an arbitrary right-hand side."""
from .common import *
import inspect
import numpy as _np
from vc.poly import opaque


class NP2(arr.NumpyProxy):
    """numpy as the integrators use it: small coefficient arrays may hold symbolic numbers."""

    def zeros(self, shape, dtype=float, order='C', **kw):
        r = self._alloc(shape, dtype, 0)
        if r is not None:
            return r
        r = _np.empty(shape, dtype=object)
        r[...] = Poly.of(0)
        return r

    def max(self, a, *x, **k):
        if isinstance(a, _np.ndarray) and a.dtype == object and not x and not k:
            l = list(a.reshape(-1))
            m = l[0]
            for v in l[1:]:
                m = opaque('max', m, v)
            return m
        return _np.max(a, *x, **k)
    amax = max

    def sqrt(self, a):
        if isinstance(a, _np.ndarray) and a.dtype == object:
            r = _np.empty(a.shape, dtype=object)
            for i in _np.ndindex(r.shape):
                r[i] = a[i].sqrt()
            return r
        return arr.NumpyProxy.sqrt(self, a)


NP2.float64, NP2.float32 = load.float64, load.float32
BS5_A = [[], ['1/6'], ['2/27', '4/27'], ['183/1372', '-162/343', '1053/1372'], ['68/297', '-4/11', '42/143', '1960/3861'],
         ['597/22528', '81/352', '63099/585728', '58653/366080', '4617/20480'],
         ['174197/959244', '-30942/79937', '8152137/19744439', '666106/1039181', '-29421/29068', '482048/414219'],
         ['587/8064', '0', '4440339/15491840', '24353/124800', '387/44800', '2152/5985', '7267/94080']]
BS5_b = BS5_A[7] + ['0']


class Rhs:
    """ComputeRHS as seen by an integrator: any field, returned in the given array or in a new one."""

    def __init__(self, S, mode, name='f'):
        self.S, self.mode, self.name, self.calls = S, mode, name, []

    def __call__(self, rhs, u, solver, /, **context):
        S = self.S
        n = len(self.calls)
        f = SArr.named('%s%d' % (self.name, n), u.grid, u.comps, 'complex128')
        self.calls.append((u.copy(), f.copy(), solver is S.s, all(k in context and context[k] is v for k, v in S.c.items()
                                                                   if k not in ('fu0', 'is_step_rejected_callback', 'dt_rejected'))))
        if self.mode == 'in place':
            rhs[...] = f
            return rhs
        if self.mode == 'cache':
            # a new array, and the given one used as scratch
            arr.garbage(rhs, 'rhs')
        r = u.like(f.val.copy()) if hasattr(u, 'like') else f
        return r


def setup(V, solver, integrator, opt='', mode='in place', precision='double', loops=None, tstep0=0):
    S = periodic(V, solver, optimization=opt, fakes={'numpy': NP2()}, precision=precision, loops=loops, extra=['--precision', precision], mask=False)
    S.params.integrator = integrator
    S.params.tstep = tstep0
    S.u = S.c.u
    S.rhs = Rhs(S, mode)
    S.s.ComputeRHS = S.rhs
    return S


def rat(x):
    from fractions import Fraction
    return Poly.of(Fraction(x))
