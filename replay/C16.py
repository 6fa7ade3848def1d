import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from channel import *
R = H.Report('C16')
H.enter_scratch()
H.use()
for solver in ('KMM_RB', 'KMMRK3_RB'):
    for quad in ('GC', 'GL'):
        for dealias in (('3/2-rule', '2/3-rule', 'None') if THOROUGH else ('3/2-rule', '2/3-rule') if quad == 'GC' else ('2/3-rule',)):
            run_rb(R, solver, quad, dealias)
            if not os.environ.get('OMPI_COMM_WORLD_SIZE'):
                exact_heat(R, solver, quad, dealias)
    run_rb(R, solver, nu=0.3, dt=0.05, kappa=0.8, mask_nyquist=False)
    # further problems of the same process
    for kw in chain(solver):
        run_rb(R, solver, nsteps=1, **kw)
on_processes(R, __file__)
R.done()
