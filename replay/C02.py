import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from periodic import *
H.enter_scratch(); H.use()
R = H.Report('C02')
for solver in 'NS,NS2D'.split(','):
    guarded(R, solver, check_solver, R, solver)
    guarded(R, solver + ' histories', histories, R, solver)
    guarded(R, solver + ' single', check_solver, R, solver, precision='single', cfgs=configs(2 if solver.endswith('2D') else 3)[1:2])
R.done()
