import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from channel import *
R = H.Report('C12')
H.enter_scratch()
H.use()
for solver in ('KMM', 'KMMr', 'KMMRK3', 'Coupled', 'CoupledRK3'):
    for quad in ('GC', 'GL'):
        for dealias in (('3/2-rule', '2/3-rule', 'None') if THOROUGH or quad == 'GC' else ('2/3-rule',)):
            run_conv(R, solver, quad, dealias)
        run_conv_random(R, solver, quad)
    for kw in chain(solver, False):
        run_conv(R, solver, **kw)
for solver in WALL:
    reports(R, solver)
on_processes(R, __file__)
R.done()
