import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kern import *
R = H.Report('C06')
H.enter_scratch()
pk = guarded(R, 'compilation of the current kernels', compile_all, R)
if pk:
    H.use(pk)
    for opt in ('cython', 'numba', 'pythran'):
        for precision in ('double', 'single'):
            for solver in ('NS', 'VV', 'MHD', 'NS2D', 'Bq2D') if opt == 'cython' or THOROUGH or precision == 'double' else ('NS', 'NS2D'):
                guarded(R, '%s %s %s' % (opt, precision, solver), kernels, R, solver, opt, precision, 2 if solver.endswith('2D') else 3)
        for solver in ('KMM', 'KMMr', 'KMMRK3', 'Coupled'):
            guarded(R, '%s %s' % (opt, solver), kernels, R, solver, opt, 'double', 3)
        for solver in ('KMM', 'KMMr', 'KMMRK3', 'KMM_RB', 'KMMRK3_RB', 'Coupled', 'CoupledRK3'):
            guarded(R, '%s %s steps' % (opt, solver), channel_steps, R, solver, opt)
    for opt in ('cython', 'numba', 'pythran'):
        for solver in ('NS', 'VV', 'MHD', 'NS2D', 'Bq2D'):
            for precision in ('double', 'single'):
                cf = configs(2 if solver.endswith('2D') else 3)
                guarded(R, '%s %s %s right-hand side' % (opt, precision, solver), check_solver, R, solver, opt, precision,
                        cfgs=(cf if THOROUGH else cf[3:5]) if precision == 'double' else cf[1:2])
R.done()
