"""Wall-parallel velocities recovered from continuity and wall-normal vorticity; mean profiles from their own equations."""
from .chanstep import *

META = dict(
    functions=['spectralDNS.solvers.%s.%s' % (s, f) for s in ('KMM', 'KMMr') for f in
               ('get_context', 'getintegrator', 'integrate', 'ComputeRHS', 'assembleAB', 'add_linear', 'solve_linear', 'compute_vw', 'end_of_tstep')]
    + ['spectralDNS.solvers.KMMRK3.%s' % f for f in ('get_context', 'integrate', 'ComputeRHS', 'add_linear', 'solve_linear')]
    + ['spectralDNS.solvers.%s.%s' % (s, f) for s in RB for f in ('integrate', 'ComputeRHS', 'solve_linear')]
    + ['spectralDNS.shen.Matrices.HelmholtzCoeff', 'spectralDNS.shen.Matrices.BiharmonicCoeff'],
    trusted=TRUSTED_CHAN + TRUSTED_ENGINE,
    assumptions=['the convection is an arbitrary field', 'at the start of a step of the two-level solvers the stored previous velocity is the current one (established by end_of_tstep, proved in C11)',
                 'the mean wall-normal vorticity vanishes initially'],
    bounded='real solvers on small meshes from random states: continuity, vorticity and mean equations of one and two steps against dense wall-normal matrices')


def prove(V):
    for solver in ('KMM', 'KMMr', 'KMMRK3'):
        V.case('%s step' % solver, lambda: steps(V, solver, 'C10'))
        V.case('%s step on a process without the mean mode' % solver, lambda: steps(V, solver, 'C10', rank=1))
    for solver in RB:
        V.case('%s step' % solver, lambda: steps(V, solver, 'C10'))
        V.case('%s step on a process without the mean mode' % solver, lambda: steps(V, solver, 'C10', rank=1))
    if V.tier == 'thorough':
        for solver in ('KMM', 'KMMr', 'KMMRK3'):
            for q in ('GL',):
                V.case('%s step, %s points' % (solver, q), lambda: steps(V, solver, 'C10', quad=q))
