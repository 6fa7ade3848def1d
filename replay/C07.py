import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from integ import *
R = H.Report('C07')
H.enter_scratch()
pk = guarded(R, 'compilation of the current kernels', compile_all, R, lusolve=False, pythran=True)
if pk:
    H.use(pk)
    for opt in ('', 'cython', 'numba', 'pythran'):
        for solver in ('NS', 'NS2D', 'MHD', 'VV', 'Bq2D') if not opt or THOROUGH else ('NS', 'NS2D', 'MHD'):
            for precision in ('double', 'single'):
                if precision == 'single' and (solver != 'NS' or opt == 'pythran'):
                    continue
                for sch in ('RK4', 'ForwardEuler', 'AB2', 'BS5_fixed'):
                    if sch == 'BS5_fixed' and (opt or precision == 'single'):
                        continue
                    for mode in ('in place', 'new array', 'cache'):
                        for t0 in (0, 5):
                            guarded(R, ' '.join((opt, solver, sch)), run_fixed, R, solver, sch, opt, mode, t0, precision, 10 if sch == 'BS5_fixed' else 4)
R.done()
