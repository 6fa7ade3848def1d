import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from channel import *
R = H.Report('C10')
H.enter_scratch()
H.use()
for solver in ('KMM', 'KMMr', 'KMMRK3'):
    for quad in ('GC', 'GL'):
        for dealias in (('3/2-rule', '2/3-rule') if THOROUGH else ('3/2-rule',) if quad == 'GC' else ('2/3-rule',)):
            run_kmm(R, solver, 'C10', quad, dealias)
    run_kmm(R, solver, 'C10', nu=0.3, dt=0.05, mask_nyquist=False)
    # further problems of the same process
    for kw in chain(solver):
        run_kmm(R, solver, 'C10', nsteps=1, **kw)
on_processes(R, __file__)
R.done()
