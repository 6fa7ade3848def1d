"""Rayleigh-Benard channel solvers: implicit temperature equation, wall temperatures, buoyancy."""
from .chanstep import *

META = dict(
    functions=['spectralDNS.solvers.KMM_RB.%s' % f for f in ('get_context', 'getintegrator', 'integrate', 'ComputeRHS', 'solve_linear', 'DivRBConvection', 'end_of_tstep')]
    + ['spectralDNS.solvers.KMMRK3_RB.%s' % f for f in ('get_context', 'getintegrator', 'integrate', 'ComputeRHS', 'solve_linear', 'StandardRBConvection')]
    + ['spectralDNS.shen.Matrices.HelmholtzCoeff'],
    trusted=TRUSTED_CHAN + TRUSTED_ENGINE + ['shenfun inhomogeneous Dirichlet space: the last two coefficients are the wall values, the function is the homogeneous part plus their linear interpolation; its matrices act on the homogeneous part and its Helmholtz solver leaves the wall values alone; a truncation of the wall-normal direction removes the last coefficients'],
    assumptions=['the momentum convection is an arbitrary field (C12)', 'all stored temperature levels have the same wall temperatures, zero at the nonzero modes',
                 'at the start of a step the latest stored levels are the current fields (established by end_of_tstep, proved here)'],
    bounded='real solvers on small meshes: one and two steps from random states against dense wall-normal matrices, the heat convection against exact derivatives of polynomial-trigonometric fields, decay of heat modes, wall temperatures')


def prove(V):
    for solver in ('KMM_RB', 'KMMRK3_RB'):
        for d in DEALIAS:
            V.case('%s step, dealiasing %s' % (solver, d), lambda: steps(V, solver, 'C16', dealias=d))
        V.case('%s step on a process without the mean mode' % solver, lambda: steps(V, solver, 'C16', rank=1))
        V.case('%s step, Gauss-Lobatto points' % solver, lambda: steps(V, solver, 'C16', quad='GL'))
