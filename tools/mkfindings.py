import json
rows=[
("F1","C06","3916208","the cython AB2_2D kernel never took its Euler start-up step, so its first step used a previous right-hand side that does not exist"),
("F2","C06","c363d28","the cython ForwardEuler kernels required an argument the integrator does not pass; every optimized Euler run raised TypeError"),
("F3","C06","4f13e2c","the cython 2D curl indexed the wavenumbers out of bounds"),
("F10","C06","2fd65dd","the cython RK4 driver ignored the array ComputeRHS returns and accumulated whatever was in the work array"),
("F4","C07","dd9aad9","AB2 (and the adaptive FSAL method) started at tstep>0 without a previous right-hand side, e.g. after a restart: the first step used zeros / uninitialised data"),
("F5","C15","ba5064a","HDF5File.close raised AttributeError when no output had been written"),
("F6","C18","ea19006","VV.get_divergence differentiated an un-recovered velocity (cross product with K, not K/K^2) and so was not the divergence of the velocity"),
("F11","C18","IFS:project accepts","energy diagnostics passed the wavenumbers as a list, which project() rejected: the diagnostic raised instead of returning the projection"),
("F7a","C16","48490f1","KMM_RB temperature solve passed solution and right-hand side in the wrong order: the temperature was never advanced"),
("F7b","C16","1a814f3","KMMRK3_RB temperature solve passed solution and right-hand side in the wrong order: the temperature was never advanced"),
("F8","C12","22d2374","KMM.compute_derivatives called a kernel that does not exist; every convection form but Vortex raised"),
("F9","C19","82ad09f","dx with Gauss-Lobatto points did not halve the weight of the last Chebyshev coefficient"),
("F12","C14","7b80b0a","config.update did not reach solver-specific options: the value was overwritten by the option's default when the arguments were parsed"),
("F13","C14","6f3ce91","update for one mesh changed the defaults of all others (shared parent parser)"),
("F14","C20","17dfa30","a hook given to get_solver for one solver stayed in place for solvers selected later"),
("F15","C20","88f4fb1","any substring of 'Vortex' was accepted as a convection form of the doubly periodic solver"),
("F16","C12","9fee6a3","divergence convection of the channel solver differentiated products in the wrong (biharmonic) space: wall-normal component wrong by O(1)"),
("F17","C16","23deb87","both Rayleigh-Benard solvers added the mean temperature gradient to the convection with the opposite sign (KMMRK3_RB at every stage, KMM_RB in its Standard convection)"),
("F18","C16","70060b9","with Gauss-Lobatto points the temperature space kept Gauss points: velocity and temperature lived on different meshes, and KMM_RB applied matrices of another quadrature than it inverted"),
("F19","C16","0a76c75","with the 2/3-rule the temperature space was truncated in the wall-normal direction too, which zeroes its last two coefficients, the wall temperatures: the KMM_RB convection saw no mean temperature gradient"),
("F20","C16","f6fc75c","the KMMRK3_RB heat convection was transformed into the very array that the following mass-matrix product clears before it reads: convection of temperature was identically zero"),
("F21","C12","cd60de5","KMMr differentiated along axis 0 although its wall-normal axis is the last one, and called a kernel that does not exist: standard and skew-symmetric convection raised, divergence convection was silently wrong"),
("F22","C20","90ac088","mesh sizes given directly for one selection overrode the sizes of every later one in the same process"),
("F23","C14","a628632","planner efforts set for one problem type, or on the command line of one selection, leaked into all later selections and were written into the caller's dictionary"),
("F24","C12","IFS:reporting the convection","get_convection of KMM, KMMr and Coupled computed into the context's H_hat, from which the next step extrapolates: asking for the convection (or the pressure) between two steps, as an update hook may, changed the Adams-Bashforth term of the next step"),
]
opens=[
("O1","C20",[r"the accepted name Bq resolves to a solver"],"the triply periodic parser accepts the solver name Bq, for which there is no module: get_solver(mesh='triplyperiodic', parse_args=['Bq']) raises AttributeError/ModuleNotFoundError. Repair needs either a new solver or removing a documented option group, so it is recorded, not repaired"),
("O2","C14",[r"the output files have the configured name \((NS|VV|MHD|NS2D|Bq2D|KMM|KMMr|KMMRK3|KMM_RB|KMMRK3_RB|Coupled|CoupledRK3)\)"],"the documented parameter h5filename ('Filename for storing HDF5 results') is never read: every get_context names its files after the solver, so two runs of one solver in one directory overwrite each other whatever h5filename says. Reading it would rename the default output of every existing script (default 'results'), so it is recorded, not repaired"),
]
import subprocess
out=[]
for i,p,c,t in rows:
    if c.startswith("IFS:"):
        c=subprocess.check_output(["git","-C","/repo","log","--format=%h","--grep",c[4:]],text=True).split()[0]
    out.append({"id":i,"property":p,"status":"fixed","commit":c,"match":[],"text":f"fixed: property={p} {c} {t}"})
for i,p,m,t in opens:
    out.append({"id":i,"property":p,"status":"open","match":m,"text":t})
json.dump({"findings":out},open("/verif/known_findings.json","w"),indent=1)
