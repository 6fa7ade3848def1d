"""Source of properties.jsonl (kept as code only to avoid hand-escaping JSON)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=()):
    if len(title) > 80: print('LONG', id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)))
S = 'spectralDNS/solvers/'
prop('C01', 'Periodic velocity solvers return the projected momentum right-hand side',
 'For every velocity field, source, viscosity, mesh, domain size, precision and dealiasing rule, the right-hand side computed by the 2D and 3D periodic velocity solvers is, at every wavenumber k, the (Nyquist-masked) convection term with its component along k removed, minus viscosity times |k|^2 times the velocity, plus the source; at the mean mode nothing is removed. The stored pressure coefficient is exactly the one whose gradient was removed. The computation changes neither the velocity, the source nor the wavenumber data.',
 ['inputs', 'configurations'], 'all velocity and source fields, all wavenumbers, viscosities, meshes (odd, even, anisotropic), domain sizes, precisions and dealiasing rules',
 'The tests compare final energies of a Taylor-Green run on one cubic mesh with one box size: the convection there is nearly a pure gradient or symmetric, the source is zero, and no component or wavenumber is examined.',
 [S+'NS.py', S+'NS2D.py'], [('ComputeRHS', S+'NS.py'), ('add_pressure_diffusion', S+'NS.py'), ('get_context (K, K2, K_over_K2, mask)', S+'NS.py')], ['ComputeRHS(...)', 'context.P_hat'])
prop('C02', 'Each convection form of the periodic solvers equals its definition',
 'For every velocity field and dealiasing rule, the rotational, standard, divergence and skew-symmetric convection forms of the 3D periodic velocity solver, and the rotational form of the 2D one, return the forward transform of u x curl(u), of -(u.grad)u, of -div(u u), and the mean of the previous two, built from the dealiased physical fields. The result does not depend on what scratch storage or the result array held before. The velocity argument is left unchanged.',
 ['inputs', 'configurations', 'histories'], 'all velocity fields, all four forms, all dealiasing rules, all prior contents of scratch storage',
 'Only the rotational form is ever run, on Taylor-Green data whose symmetries hide swapped or dropped terms; the 2D test field has a gradient-only convection.',
 [S+'NS.py', S+'NS2D.py', 'spectralDNS/maths/cross.py'], [('getConvection / Conv', S+'NS.py'), ('standard_convection, divergence_convection', S+'NS.py'), ('compute_curl, Cross', S+'NS.py'), ('cross1, cross2', 'spectralDNS/maths/cross.py')], ['solver.conv(...)'])
prop('C03', 'The velocity-vorticity solver evolves vorticity by the curl of u x w',
 'For every vorticity field, source, viscosity and dealiasing rule, the right-hand side of the velocity-vorticity solver is, per wavenumber k, the Nyquist-masked i k x F(u x w) minus viscosity |k|^2 w plus the source, where u is the velocity with coefficients i k x w / |k|^2 (zero at the mean mode). The contribution of convection is divergence free. Neither the vorticity nor the source is modified.',
 ['inputs', 'configurations', 'histories'], 'all vorticity and source fields, wavenumbers, viscosities, dealiasing rules and prior scratch contents',
 'The only test data are Taylor-Green fields with zero source on a 2 pi box, compared through a final energy.',
 [S+'VV.py'], [('ComputeRHS', S+'VV.py'), ('compute_velocity', S+'VV.py'), ('getConvection / Conv', S+'VV.py'), ('add_linear', S+'VV.py')], ['ComputeRHS(...)'])
prop('C04', 'The MHD solver returns the magnetohydrodynamic right-hand side',
 'For every velocity and magnetic field, viscosity, resistivity and dealiasing rule, the MHD right-hand side is, per wavenumber, the Nyquist-masked projection of -div(uu - bb) minus viscosity |k|^2 u for the velocity, and the Nyquist-masked div(ub - bu) minus resistivity |k|^2 b for the magnetic field. The non-linear part of both equations is divergence free. The fields are not modified.',
 ['inputs', 'configurations', 'histories'], 'all velocity and magnetic fields, wavenumbers, coefficients, dealiasing rules and prior scratch contents',
 'One Taylor-Green MHD run with equal box sides checks two energies; the viscosity equals the resistivity there.',
 [S+'MHD.py'], [('ComputeRHS', S+'MHD.py'), ('divergenceConvection, set_Elsasser', S+'MHD.py'), ('add_pressure_diffusion', S+'MHD.py')], ['ComputeRHS(...)'])
prop('C05', 'The 2D Boussinesq solver returns the buoyancy-coupled right-hand side',
 'For every velocity and density field, source, viscosity, Richardson and Prandtl number, the 2D Boussinesq right-hand side is, per wavenumber, the Nyquist-masked rotational convection minus Ri times density in the vertical, with the component along k removed, minus viscosity |k|^2 u, and for the density the masked -div(u rho) minus (viscosity/Pr) |k|^2 rho, plus the source. The stored pressure is the one removed. The fields are not modified.',
 ['inputs', 'configurations', 'histories'], 'all fields, wavenumbers, coefficients, dealiasing rules and prior scratch contents',
 'No test runs this solver at all.',
 [S+'Bq2D.py'], [('ComputeRHS', S+'Bq2D.py'), ('add_pressure_diffusion', S+'Bq2D.py'), ('getConvection / Conv', S+'Bq2D.py')], ['ComputeRHS(...)'])
prop('C06', 'Optimized kernels agree with the NumPy reference for all inputs and shapes',
 'Every optimized variant (Cython, Numba, Pythran) that the optimization setting substitutes for a numerical routine returns, for all arguments and all array shapes including non-cubic ones, the value the NumPy routine returns, modifies only what that routine modifies, and accepts the same call. No variant reads or writes outside its arrays. A routine without a variant for the chosen setting falls back to NumPy.',
 ['inputs', 'configurations', 'programs'], 'all array contents, all shapes, all optimization settings, both precisions, 2D and 3D problems',
 'The tests run a few kernels inside one cubic Taylor-Green simulation; Euler, Adams-Bashforth and most 2D kernels are never executed optimized, and equal extents hide swapped axes.',
 ['spectralDNS/optimization/cython_integrators.in', 'spectralDNS/optimization/cython_maths.in', 'spectralDNS/optimization/cython_solvers.in', 'spectralDNS/optimization/numba_module.py', 'spectralDNS/optimization/pythran_module.py', 'spectralDNS/optimization/pythran_maths.py', 'spectralDNS/optimization/__init__.py'],
 [('optimizer dispatch', 'spectralDNS/optimization/__init__.py'), ('Cython kernels', 'spectralDNS/optimization/cython_*.in'), ('Numba kernels', 'spectralDNS/optimization/numba_module.py'), ('Pythran kernels', 'spectralDNS/optimization/pythran_maths.py')], ['the decorated functions'])
prop('C07', 'Fixed-step integrators apply exactly their scheme for every right-hand side',
 'For every right-hand-side function, initial state and step size, one step of the classical RK4, forward Euler, second-order Adams-Bashforth and fixed-step fifth-order Bogacki-Shampine integrators yields exactly the update of that scheme, in place, under every optimization setting, and reports the given step size both as taken and as next. Adams-Bashforth starts with an Euler step and Bogacki-Shampine evaluates its first stage when no previous right-hand side exists, also when a run is started at a nonzero time step. Each right-hand side is evaluated at the scheme\'s stage state.',
 ['inputs', 'histories', 'configurations'], 'all right-hand-side functions (including ones that return another array), states, step sizes, step counts and optimization settings',
 'The tests compare energies of a few short runs with one integrator setting each; multistep start-up, restarts and optimized Euler/Adams-Bashforth are not exercised.',
 ['spectralDNS/maths/integrators.py', 'spectralDNS/optimization/cython_integrators.in', 'spectralDNS/optimization/numba_module.py', 'spectralDNS/optimization/pythran_module.py'],
 [('getintegrator', 'spectralDNS/maths/integrators.py'), ('RK4, ForwardEuler, AB2, adaptiveRK', 'spectralDNS/maths/integrators.py')], ['the function returned by getintegrator'])
prop('C08', 'Adaptive steps are accepted only within tolerance, else retried from the start',
 'A step of the adaptive integrator returns the fifth-order Bogacki-Shampine update of the state it started from, for the step size it reports as taken, only if the embedded error estimate for that step size is at most one; otherwise it retries from the unchanged state with a strictly smaller step. The proposed next step is the taken one times 0.8 estimate^(-1/5) limited to between 0.01 and 2, and to at most 1 after a rejection. The coefficients satisfy all order conditions up to five (four for the embedded pair), and the last stage is reused as the first stage of the following step, while on the first step of a run, also a restarted one, the first stage is evaluated.',
 ['inputs', 'histories', 'schedules'], 'all right-hand sides, states, tolerances, step sizes and all sequences of acceptances and rejections of any length',
 'Adaptive stepping is never run by the tests; a rejection, let alone a sequence of them, never occurs.',
 ['spectralDNS/maths/integrators.py'], [('adaptiveRK', 'spectralDNS/maths/integrators.py'), ('getintegrator (tableau)', 'spectralDNS/maths/integrators.py')], ['the function returned by getintegrator'])
prop('C09', 'The time loop advances, reports and stops consistently, never past the end',
 'In every run, after each step the time has grown by the step taken and the step counter by one, then the user update, the output update and the timer each run exactly once, in that order, on the new state; the loop never takes a step that would pass the end time by more than round-off. The periodic solvers shorten the last step so that a run that takes any step ends at the end time, whatever the step sizes the integrator proposes. Afterwards the configured step size is restored, the final callback runs once and the output is closed.',
 ['histories', 'schedules', 'configurations'], 'all start times, end times, step sizes, step-size sequences proposed by an integrator and numbers of steps',
 'The tests run a handful of fixed step counts with the end time an exact multiple of the step.',
 ['spectralDNS/__init__.py', S+'NS.py', S+'spectralinit.py'], [('solve', 'spectralDNS/__init__.py'), ('end_of_tstep', S+'NS.py')], ['params.t, params.tstep, params.dt', 'update callback'])
prop('C10', 'Channel velocity is recovered divergence free from normal velocity and vorticity',
 'For every right-hand side, the channel solvers (wall-normal direction first or last, two-step and Runge-Kutta versions) recover wall-parallel velocities such that, at every nonzero wall-parallel wavenumber, the discrete continuity equation holds and the wall-normal vorticity equals the solved one. At the zero wavenumber the wall-normal velocity is zero and the two mean profiles come from their own momentum equations, each with its own convection, the streamwise one with the imposed mean pressure gradient. Nothing is done for the zero wavenumber on a process that does not own it.',
 ['inputs', 'configurations'], 'all right-hand sides, wavenumber pairs, step sizes and viscosities, with and without the zero wavenumber on the process',
 'The Orr-Sommerfeld tests have a single wavenumber pair with zero spanwise wavenumber and velocity, so signs and swaps involving the third direction are invisible.',
 [S+'KMM.py', S+'KMMr.py', S+'KMMRK3.py', 'spectralDNS/optimization/cython_solvers.in'], [('solve_linear', S+'KMM.py'), ('compute_vw', S+'KMM.py')], ['U_hat and g after solve_linear'])
prop('C11', 'Channel solvers assemble the implicit scheme they declare, matching matrices',
 'The two-step channel solver advances wall-normal velocity, wall-normal vorticity and the mean wall-parallel profiles by Crank-Nicolson for diffusion and (3/2, -1/2) Adams-Bashforth for convection, and the Runge-Kutta one by the three-stage scheme with coefficients 8/15, 5/12, 3/4 and 0, -17/60, -5/12, for all fields, wavenumbers, viscosities and step sizes. The matrices inverted and the matrices applied belong to the same equation: left side minus right side is the step size times the diffusion of the average of old and new state. Previous-level data are exactly those of the preceding step or stage.',
 ['inputs', 'configurations', 'histories'], 'all fields, wavenumbers, viscosities, step sizes, stages and step sequences',
 'The tests follow one linear wave for a few steps with tolerances that a first-order scheme would also meet.',
 [S+'KMM.py', S+'KMMr.py', S+'KMMRK3.py', 'spectralDNS/shen/Matrices.py'], [('ComputeRHS, assembleAB, add_linear, end_of_tstep', S+'KMM.py'), ('get_context (mat, la)', S+'KMM.py'), ('ComputeRHS, get_context', S+'KMMRK3.py')], ['rhs, H_hat0, U_hat0'])
prop('C12', 'Channel convection forms and derived fields equal their definitions',
 'For every velocity field, the channel solvers (wall-normal direction first or last, coupled velocity-pressure solvers included) report as vorticity the curl of the velocity; their rotational convection is the forward transform of u x curl(u), the standard, divergence and skew-symmetric convections are -(u.grad)u, -div(uu) and their mean, built on the dealiased mesh, and the divergence and velocity-gradient outputs have the stated components. The results do not depend on prior scratch contents, the velocity is unchanged, and reporting any of them between two steps leaves the steps that follow as they would have been.',
 ['inputs', 'configurations', 'histories'], 'all velocity fields satisfying the boundary conditions, all convection forms, dealiasing rules, prior scratch contents and orders of reporting between steps',
 'Only the rotational form is tested, on a two-dimensional perturbation.',
 [S+'KMM.py', S+'KMMr.py', S+'Coupled.py', S+'CoupledRK3.py'], [('compute_curl, mult_K1j, Cross', S+'KMM.py'), ('standardConvection, divergenceConvection', S+'KMM.py'), ('get_divergence, compute_derivatives', S+'KMM.py')], ['solver.conv(...)', 'get_curl, get_divergence'])
prop('C13', 'Compiled wall-normal kernels equal their matrix definition for every size',
 'For every number of points (4 or more for the derivative projection, 7 or more for the divergence product), every column of complex data, every wall-normal axis, array shape and every coefficient, the Chebyshev wall-normal kernels (Helmholtz and biharmonic operator application, derivative projection to the Chebyshev basis, divergence product with the Neumann basis) return the product with the matrix they stand for, leave their inputs as they were and read and write only inside their arrays.',
 ['inputs', 'configurations'], 'all sizes, parities, wall-normal axes, coefficients and data',
 'The unit tests compare two of the kernels with one matrix each for one size.',
 ['spectralDNS/shen/LUsolve.pyx', 'spectralDNS/shen/Matrices.py'], [('Mult_CTD_3D_ptr, Mult_Div, Chebyshev matvecs', 'spectralDNS/shen/LUsolve.pyx'), ('HelmholtzCoeff.matvec, BiharmonicCoeff.matvec', 'spectralDNS/shen/Matrices.py')], ['matvec(...)'])
prop('C14', 'Configuration values mean what the documentation says, in every order of setting',
 'Mesh sizes given as exponents give 2**M points unless sizes are given directly, domain lengths accept arithmetic expressions of pi, the mesh spacing is length over size per direction (derived sizes and spacings are read as attributes), and every stored value is the same by attribute and by item. Values set through an update become the defaults of the chosen problem type only, solver-specific ones included, later updates replacing earlier ones, and command-line arguments override them for one selection. Viscosity, step size and the other physical coefficients are delivered, as attributes, in the precision selected at the time of reading. The mesh, the domain, the decomposition, the number of threads, the planner effort and the output file name in force reach the spaces and files every solver creates.',
 ['inputs', 'configurations', 'histories'], 'all values and all orders of setting and reading parameters',
 'The tests set each parameter once, in one order, to one value.',
 ['spectralDNS/config.py', 'spectralDNS/__init__.py', S+'NS.py', S+'KMM.py'], [('get_context', S+'NS.py'), ('Params', 'spectralDNS/config.py'), ('update', 'spectralDNS/config.py'), ('get_solver', 'spectralDNS/__init__.py')], ['config.params'])
prop('C15', 'Results and checkpoints are written at exactly the configured steps',
 'Over any run, results are written exactly at the steps that are multiples of the result interval, after the physical fields were refreshed from the current solution, and checkpoints exactly at multiples of the checkpoint interval or when a stop file is found. Each checkpoint holds every declared solution level plus the step number and time of that step. A stop request is honoured by a checkpoint followed by exit, and closing never fails, even when nothing was written.',
 ['histories', 'configurations', 'fault_sequences'], 'all step sequences, intervals, sets of stored fields and points at which the stop file appears',
 'No test writes or reads a file.',
 ['spectralDNS/h5io/HDF5File.py', S+'NS.py', S+'VV.py', S+'MHD.py', S+'Bq2D.py', S+'KMM.py'], [('HDF5File.update, check_if_kill, close', 'spectralDNS/h5io/HDF5File.py'), ('update_components', S+'NS.py')], ['the HDF5 files'])
prop('C16', 'Rayleigh-Benard solvers advance temperature implicitly and couple buoyancy',
 'For every velocity and temperature field, the Rayleigh-Benard channel solvers advance the temperature by their implicit scheme (diffusion averaged over old and new level, convection extrapolated or staged), keep the wall temperatures fixed, and add to the wall-normal momentum equation the buoyancy of the temperature at the scheme\'s time level. Previous temperature levels are exactly those of the preceding steps.',
 ['inputs', 'configurations', 'histories'], 'all fields, wavenumbers, coefficients, step sizes and step sequences',
 'No test runs these solvers.',
 [S+'KMM_RB.py', S+'KMMRK3_RB.py'], [('ComputeRHS, solve_linear, end_of_tstep', S+'KMM_RB.py'), ('ComputeRHS, solve_linear', S+'KMMRK3_RB.py')], ['phi_hat'])
prop('C17', 'Coupled channel solvers assemble the declared velocity-pressure system',
 'For every velocity field the coupled channel solvers assemble right-hand sides with diffusion averaged over old and new level, Adams-Bashforth or three-stage Runge-Kutta convection and the forcing in the streamwise equation, and solve the block system of the matching implicit operator, pressure gradient and continuity. The wall-normal mean velocity is zero. Previous levels are exactly those of the preceding step or stage.',
 ['inputs', 'configurations', 'histories'], 'all fields, wavenumbers, coefficients, step sizes and step sequences',
 'No test runs these solvers.',
 [S+'Coupled.py', S+'CoupledRK3.py'], [('ComputeRHS, integrate, end_of_tstep', S+'Coupled.py'), ('ComputeRHS, integrate', S+'CoupledRK3.py')], ['UP_hat'])
prop('C18', 'Derived fields of the periodic solvers are consistent with the evolved state',
 'For every state of the periodic solvers, the velocity, vorticity, density and divergence they report are the inverse transforms of the corresponding spectral expressions of the current primary variable, the pressure that of the stored pressure coefficient, and reporting them does not change the state or the right-hand side computed next. Setting a velocity and reading it back is a forward followed by a backward transform; where the primary variable is vorticity, taking the curl of the velocity set gives back its divergence-free, mean-free part. Projecting a field removes exactly its component along the wavenumber.',
 ['inputs', 'histories', 'configurations'], 'all states, all solvers, and all orders of diagnostic calls between steps',
 'Tests call a few of these once at the end on symmetric fields.',
 [S+'NS.py', S+'NS2D.py', S+'VV.py', S+'MHD.py', S+'Bq2D.py', 'spectralDNS/maths/maths.py'], [('get_velocity, get_curl, get_pressure, get_divergence, set_velocity', S+'NS.py')], ['get_* return values'])
prop('C19', 'Channel volume integrals are exact for all resolved polynomials',
 'The channel integral of a field over the domain, on the root process, equals the exact integral for every polynomial in the wall-normal coordinate of degree below the number of points, for both Chebyshev quadratures, every number of points, every wall-normal axis and every wall-parallel domain size.',
 ['inputs', 'configurations'], 'all fields polynomial in the wall-normal coordinate, all sizes, axes and quadratures',
 'The integral is used only inside demos and tests to report energies for one size and one quadrature.',
 ['spectralDNS/utilities/__init__.py'], [('dx', 'spectralDNS/utilities/__init__.py')], ['dx(...)'])
prop('C20', 'Selecting a solver, convection or integrator by name always yields that one',
 'Every solver, convection form and integrator that the command line accepts for a problem type resolves to the implementation of that name with the documented extra parameters and their defaults, and user callbacks passed at selection replace exactly the corresponding hook. Unknown names are refused. Selecting one solver after another in the same process gives each its own parameters and hooks.',
 ['configurations', 'histories'], 'all accepted names, callbacks and selection orders',
 'The tests select a few combinations.',
 ['spectralDNS/__init__.py', 'spectralDNS/config.py', S+'NS.py', S+'KMM.py', 'spectralDNS/maths/integrators.py'], [('get_solver', 'spectralDNS/__init__.py'), ('getConvection', S+'NS.py'), ('getintegrator', 'spectralDNS/maths/integrators.py')], ['the returned solver module'])
prop('C21', 'Results do not depend on how many processes share the domain',
 'For every number of MPI processes and either decomposition, a run produces the same fields as on one process.',
 ['configurations', 'schedules'], 'all process counts and decompositions', 'The tests run on one process.',
 ['spectralDNS/solvers/NS.py', 'spectralDNS/maths/integrators.py', 'spectralDNS/utilities/__init__.py'], [('local slices, reductions, rank-0 guards', 'all solvers')])
prop('C22', 'Computed solutions converge to the solution of the continuous equations',
 'As the mesh and the step size are refined, the computed fields approach the solution of the incompressible Navier-Stokes (MHD, Boussinesq) equations at the order of the scheme, within floating-point accuracy.',
 ['inputs', 'configurations'], 'all smooth initial data', 'The tests look at one resolution.',
 ['spectralDNS/solvers/NS.py'], [('the discretisation as a whole', 'all solvers')])
prop('C23', 'A crash while writing leaves the previous checkpoint readable',
 'If the process dies at any point while results or checkpoints are being written, the last completed checkpoint can still be read.',
 ['crash_points'], 'all crash points during output', 'No test writes a file.',
 ['spectralDNS/h5io/HDF5File.py'], [('HDF5File.update', 'spectralDNS/h5io/HDF5File.py')])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
