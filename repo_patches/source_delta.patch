From 391620800036151f71b9469fc0e27bcf9d62fe9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:32 +0000
Subject: [PATCH 01/25] fix: AB2_2D (cython) must take its Euler start-up step
 at tstep 0

The optimized 2D Adams-Bashforth kernel started with an Euler step at tstep==1
instead of 0, so the very first step combined the current right-hand side with
an uninitialised previous one.
---
 spectralDNS/optimization/cython_integrators.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spectralDNS/optimization/cython_integrators.in b/spectralDNS/optimization/cython_integrators.in
index 80ef204..3253ab3 100644
--- a/spectralDNS/optimization/cython_integrators.in
+++ b/spectralDNS/optimization/cython_integrators.in
@@ -165,7 +165,7 @@ def AB2_2D(np.ndarray[complex_t, ndim=3] U_hat,
     cdef unsigned int rk, i, j, k
     dU = solver.ComputeRHS(dU, U_hat, solver, **context)
 
-    if tstep == 1:
+    if tstep == 0:
         for i in range(dU.shape[0]):
             for j in range(dU.shape[1]):
                 for k in range(dU.shape[2]):
-- 
2.43.0


From c363d28e07150c7f3d02963fe61edb98cddc3016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:32 +0000
Subject: [PATCH 02/25] fix: cython ForwardEuler takes the arguments the
 integrator passes

The optimized kernels had an extra unused parameter, so selecting ForwardEuler
with optimization=cython raised a TypeError.
---
 spectralDNS/optimization/cython_integrators.in | 2 --
 1 file changed, 2 deletions(-)

diff --git a/spectralDNS/optimization/cython_integrators.in b/spectralDNS/optimization/cython_integrators.in
index 3253ab3..94b299e 100644
--- a/spectralDNS/optimization/cython_integrators.in
+++ b/spectralDNS/optimization/cython_integrators.in
@@ -52,7 +52,6 @@ def RK4(np.ndarray[complex_t, ndim=4] U_hat,
     return U_hat, dt, dt
 
 def ForwardEuler(np.ndarray[complex_t, ndim=4] U_hat,
-                 np.ndarray[complex_t, ndim=4] U_hat0,
                  np.ndarray[complex_t, ndim=4] dU,
                  real_t dt,
                  solver,
@@ -139,7 +138,6 @@ def RK4_2D(np.ndarray[complex_t, ndim=3] U_hat,
     return U_hat, dt, dt
 
 def ForwardEuler_2D(np.ndarray[complex_t, ndim=3] U_hat,
-                    np.ndarray[complex_t, ndim=3] U_hat0,
                     np.ndarray[complex_t, ndim=3] dU,
                     real_t dt,
                     solver,
-- 
2.43.0


From 4f13e2cc819a09ca2e14ca18db745cb165a28b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:32 +0000
Subject: [PATCH 03/25] fix: out-of-bounds wavenumber access in the 2D cython
 curl

The wavenumber arrays have shapes (N0, 1) and (1, N1); indexing both with [i,j]
read outside of them (bounds checking is off) and gave a wrong vorticity.
---
 spectralDNS/optimization/cython_maths.in | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spectralDNS/optimization/cython_maths.in b/spectralDNS/optimization/cython_maths.in
index 918fefe..6019d52 100644
--- a/spectralDNS/optimization/cython_maths.in
+++ b/spectralDNS/optimization/cython_maths.in
@@ -138,8 +138,8 @@ def _cross3_2D(np.ndarray[complex_t, ndim=2] c,
 
     for i in xrange(b.shape[1]):
         for j in xrange(b.shape[2]):
-            a0 = kx[i,j]
-            a1 = ky[i,j]
+            a0 = kx[i,0]
+            a1 = ky[0,j]
             b0 = b[0,i,j]
             b1 = b[1,i,j]
             c[i,j].real = -(a0*b1.imag - a1*b0.imag)
-- 
2.43.0


From ba5064af2ca76716f6f7c85c7e30771c818e9d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:32 +0000
Subject: [PATCH 04/25] fix: closing a result file that was never written must
 not raise

solve() closes the file unconditionally; with no time step taken the members
are still None.
---
 spectralDNS/h5io/HDF5File.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spectralDNS/h5io/HDF5File.py b/spectralDNS/h5io/HDF5File.py
index cf7de8d..360a58c 100644
--- a/spectralDNS/h5io/HDF5File.py
+++ b/spectralDNS/h5io/HDF5File.py
@@ -99,9 +99,9 @@ class HDF5File(object):
         self.wfile.open()
 
     def close(self):
-        if self.cfile.f:
+        if self.cfile is not None and self.cfile.f:
             self.cfile.close()
-        if self.wfile.f:
+        if self.wfile is not None and self.wfile.f:
             self.wfile.close()
 
     @staticmethod
-- 
2.43.0


From ea19006eb00fa223fb3587866e453ab715f71965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:32 +0000
Subject: [PATCH 05/25] fix: VV.get_divergence recovers the velocity before
 differentiating it

The velocity is i K x W/|K|^2; without the division U_hat was left holding the
curl of the vorticity.
---
 spectralDNS/solvers/VV.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spectralDNS/solvers/VV.py b/spectralDNS/solvers/VV.py
index df96576..9df4534 100644
--- a/spectralDNS/solvers/VV.py
+++ b/spectralDNS/solvers/VV.py
@@ -71,9 +71,9 @@ def get_velocity(W_hat, U, work, VT, K_over_K2, **context):
     U = compute_velocity(U, W_hat, work, VT, K_over_K2)
     return U
 
-def get_divergence(T, K, U_hat, W_hat, **context):
+def get_divergence(T, K, K_over_K2, U_hat, W_hat, **context):
     div_u = Array(T)
-    U_hat = cross2(U_hat, K, W_hat)
+    U_hat = cross2(U_hat, K_over_K2, W_hat)
     div_u = T.backward(1j*(K[0]*U_hat[0]+K[1]*U_hat[1]+K[2]*U_hat[2]), div_u)
     return div_u
 
-- 
2.43.0


From 48490f1cf6e4f1fee6c414bfdf4cf945ad588f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:32 +0000
Subject: [PATCH 06/25] fix: KMM_RB temperature solve: right-hand side first,
 solution second

With the arguments swapped the temperature was never advanced.
---
 spectralDNS/solvers/KMM_RB.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spectralDNS/solvers/KMM_RB.py b/spectralDNS/solvers/KMM_RB.py
index d6d7c30..0d52600 100644
--- a/spectralDNS/solvers/KMM_RB.py
+++ b/spectralDNS/solvers/KMM_RB.py
@@ -94,7 +94,7 @@ def ComputeRHS(rhs, u_hat, g_hat, p_hat, solver, context):
 
 def solve_linear(u_hat, g_hat, p_hat, rhs, context):
     u_hat, g_hat = KMM_solve_linear(u_hat, g_hat, rhs, **context)
-    p_hat = context.la.HelmholtzSolverT(p_hat, rhs[2])
+    p_hat = context.la.HelmholtzSolverT(rhs[2], p_hat)
     return u_hat, g_hat, p_hat
 
 def DivRBConvection(rhs, u_hat, g_hat, p_hat,
-- 
2.43.0


From 1a814f3767894ea1f1408abd8fc684b2c67d21b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:32 +0000
Subject: [PATCH 07/25] fix: KMMRK3_RB temperature solve: right-hand side
 first, solution second

With the arguments swapped the temperature was never advanced.
---
 spectralDNS/solvers/KMMRK3_RB.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spectralDNS/solvers/KMMRK3_RB.py b/spectralDNS/solvers/KMMRK3_RB.py
index 0721c49..5ef6458 100644
--- a/spectralDNS/solvers/KMMRK3_RB.py
+++ b/spectralDNS/solvers/KMMRK3_RB.py
@@ -79,7 +79,7 @@ def ComputeRHS(rhs, u_hat, g_hat, p_hat, rk, solver, context):
 
 def solve_linear(u_hat, g_hat, p_hat, rhs, rk, context):
     u_hat, g_hat = KMMRK3_solve_linear(u_hat, g_hat, rhs, rk, **context)
-    p_hat = context.la.HelmholtzSolverT[rk](p_hat, rhs[2])
+    p_hat = context.la.HelmholtzSolverT[rk](rhs[2], p_hat)
     return u_hat, g_hat, p_hat
 
 def DivRBConvection(rhs, u_hat, g_hat, p_hat,
-- 
2.43.0


From 22d2374e783fd4d5fafbc603c10347de8a40abba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:32 +0000
Subject: [PATCH 08/25] fix: KMM.compute_derivatives calls the existing
 projection kernel

LUsolve has no Mult_CTD_3D_n.
---
 spectralDNS/solvers/KMM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spectralDNS/solvers/KMM.py b/spectralDNS/solvers/KMM.py
index bb958b0..77a13ef 100644
--- a/spectralDNS/solvers/KMM.py
+++ b/spectralDNS/solvers/KMM.py
@@ -271,7 +271,7 @@ def compute_derivatives(U, U_hat, FST, FCT, FSB, K, la, mat, work, **context):
     F_tmp[0] = mat.CDB.matvec(U_hat[0], F_tmp[0])
     F_tmp[0] = la.TDMASolverD(F_tmp[0])
     duidxj[0, 0] = FST.backward(F_tmp[0], duidxj[0, 0])
-    LUsolve.Mult_CTD_3D_n(params.N[0], U_hat[1], U_hat[2], F_tmp[1], F_tmp[2])
+    LUsolve.Mult_CTD_3D_ptr(params.N[0], U_hat[1], U_hat[2], F_tmp[1], F_tmp[2], 0)
     duidxj[1, 0] = dvdx = FCT.backward(F_tmp[1], duidxj[1, 0])  # proj to Cheb
     duidxj[2, 0] = dwdx = FCT.backward(F_tmp[2], duidxj[2, 0])  # proj to Cheb
     duidxj[0, 1] = dudy = FSB.backward(1j*K[1]*U_hat[0], duidxj[0, 1]) # ShenB
-- 
2.43.0


From 82ad09fe04f86ecfba70b88489c23d86538b8742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:15 +0000
Subject: [PATCH 09/25] fix: Gauss-Lobatto quadrature weight of the last
 Chebyshev coefficient

Like the first one it is halved in the interpolant; for an odd number of points
the integral of x**(M-1) was wrong.
---
 spectralDNS/utilities/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spectralDNS/utilities/__init__.py b/spectralDNS/utilities/__init__.py
index 0c9d7d0..46d2508 100644
--- a/spectralDNS/utilities/__init__.py
+++ b/spectralDNS/utilities/__init__.py
@@ -102,6 +102,7 @@ def dx(u, FST, axis=0):
                 w[2:] = 2./(1-w[2:]**2)
                 w[0] = 1
                 w[1::2] = 0
+                w[-1] *= 0.5
                 return sum(ak*w)*np.prod(np.take(config.params.L/config.params.N, sx))
 
             assert quad == 'GC'
-- 
2.43.0


From dd9aad9fcb2d77734170b10a41732baceb5cfdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:15 +0000
Subject: [PATCH 10/25] fix: multistep and FSAL integrators restart cleanly at
 tstep > 0

AB2 and BS5 reuse the previous right-hand side whenever tstep > 0. On a restart
(--t, --tstep) the first step has none: AB2 used the solution itself in its
place and BS5 used zeros.
---
 spectralDNS/maths/integrators.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spectralDNS/maths/integrators.py b/spectralDNS/maths/integrators.py
index 3f97ce5..a86e3dd 100644
--- a/spectralDNS/maths/integrators.py
+++ b/spectralDNS/maths/integrators.py
@@ -179,6 +179,7 @@ def getintegrator(rhs, u0, solver, context):
     """
     params = solver.params
     u1 = u0.copy()
+    tstep0 = params.tstep # Nonzero on restart, with no previous rhs available
 
     if params.integrator == "RK4":
         # RK4 parameters
@@ -222,7 +223,7 @@ def getintegrator(rhs, u0, solver, context):
         def func():
             return adaptiveRK(A, b, bhat, err_order, fY_hat, u1, sc, err, fsal,
                               offset, params.TOL, params.TOL, adaptive, errnorm,
-                              rhs, u0, solver, params.dt, params.tstep, context,
+                              rhs, u0, solver, params.dt, params.tstep-tstep0, context,
                               solver.additional_callback, params)
         return func
 
@@ -235,5 +236,5 @@ def getintegrator(rhs, u0, solver, context):
     elif params.integrator == "AB2":
         @wraps(AB2)
         def func():
-            return AB2(u0, u1, rhs, params.dt, params.tstep, solver, context)
+            return AB2(u0, u1, rhs, params.dt, params.tstep-tstep0, solver, context)
         return func
-- 
2.43.0


From 2fd65dd7e99325eb8e5a23e3c45f8e516f20b7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:36 +0000
Subject: [PATCH 11/25] fix: cython RK4 uses the right-hand side array
 ComputeRHS returns

---
 spectralDNS/optimization/cython_integrators.in | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spectralDNS/optimization/cython_integrators.in b/spectralDNS/optimization/cython_integrators.in
index 94b299e..43e439e 100644
--- a/spectralDNS/optimization/cython_integrators.in
+++ b/spectralDNS/optimization/cython_integrators.in
@@ -32,6 +32,7 @@ def RK4(np.ndarray[complex_t, ndim=4] U_hat,
 
     for rk in range(4):
         dU = solver.ComputeRHS(dU, U_hat, solver, **context)
+        dU_view = dU
         with nogil:
             if rk < 3:
                 for i in range(dU.shape[0]):
-- 
2.43.0


From a2d898a41c3f4afd8fbe4a6ff9195bab0356fd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:40 +0000
Subject: [PATCH 12/25] fix: project accepts the wavenumbers as the list the
 solvers hold

---
 spectralDNS/maths/maths.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spectralDNS/maths/maths.py b/spectralDNS/maths/maths.py
index afcf262..18c5d9d 100644
--- a/spectralDNS/maths/maths.py
+++ b/spectralDNS/maths/maths.py
@@ -7,5 +7,7 @@ __all__ = ['project']
 
 def project(u, K, K_over_K2):
     """Project u onto divergence free space"""
-    u -= sum(K_over_K2*u, 0)*K
+    p = sum(K_over_K2*u, 0)
+    for i, k in enumerate(K):
+        u[i] -= p*k
     return u
-- 
2.43.0


From 7b80b0adb3539280f7cc7dde2b38f742e444fa66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:22 +0000
Subject: [PATCH 13/25] fix: defaults set through config.update reach
 solver-specific options

Python's argparse gives the defaults of a subparser precedence over those
of its parent, so update({'Ri': ..., 'Pr': ..., 'eta': ...}) was ignored.
---
 spectralDNS/config.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/spectralDNS/config.py b/spectralDNS/config.py
index ff1771f..af885a6 100644
--- a/spectralDNS/config.py
+++ b/spectralDNS/config.py
@@ -312,3 +312,10 @@ def update(new, mesh="triplyperiodic"):
         fft_plans.update(new['planner_effort'])
         new['planner_effort'] = fft_plans
     globals()[mesh].set_defaults(**new)
+    # Defaults of a subparser take precedence over defaults of its parent
+    subparsers = {'triplyperiodic': trippelsubparsers,
+                  'doublyperiodic': doublesubparsers,
+                  'channel': channelsubparsers}[mesh]
+    for subparser in subparsers.choices.values():
+        subparser.set_defaults(**{key: val for key, val in new.items()
+                                  if subparser.get_default(key) is not None})
-- 
2.43.0


From 6f3ce91fe386fd3db8ab8961fdf00e41b6d4aa20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:59 +0000
Subject: [PATCH 14/25] fix: update changes the defaults of the chosen problem
 type only

---
 spectralDNS/config.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/spectralDNS/config.py b/spectralDNS/config.py
index af885a6..7a20b85 100644
--- a/spectralDNS/config.py
+++ b/spectralDNS/config.py
@@ -46,6 +46,7 @@ __copyright__ = "Copyright (C) 2015-2018 " + __author__
 __license__ = "GNU Lesser GPL version 3 or any later version"
 
 import argparse
+from copy import deepcopy
 from collections.abc import MutableMapping
 from collections import defaultdict
 import json
@@ -209,7 +210,8 @@ parser.add_argument('--no-mask_nyquist', dest='mask_nyquist', action='store_fals
 parser.set_defaults(mask_nyquist=True)
 
 # Arguments for 3D isotropic solvers
-triplyperiodic = argparse.ArgumentParser(parents=[parser])
+# (copies, because parsers share the actions, and the defaults, of their parents)
+triplyperiodic = argparse.ArgumentParser(parents=[deepcopy(parser)])
 
 triplyperiodic.add_argument('--convection', default='Vortex',
                             choices=('Standard', 'Divergence', 'Skewed', 'Vortex'),
@@ -239,7 +241,7 @@ parser_Bq.add_argument('--Ri', default=0.1, type=float, help='Richardson number'
 parser_Bq.add_argument('--Pr', default=1.0, type=float, help='Prandtl number')
 
 # Arguments for 2D periodic solvers
-doublyperiodic = argparse.ArgumentParser(parents=[parser])
+doublyperiodic = argparse.ArgumentParser(parents=[deepcopy(parser)])
 doublyperiodic.add_argument('--integrator', default='RK4',
                             choices=('RK4', 'ForwardEuler', 'AB2', 'BS5_fixed', 'BS5_adaptive'),
                             help='Integrator for doubly periodic domain')
@@ -261,7 +263,7 @@ parser_Bq2D.add_argument('--Ri', default=0.1, type=float, help='Richardson numbe
 parser_Bq2D.add_argument('--Pr', default=1.0, type=float, help='Prandtl number')
 
 # Arguments for channel solvers with one inhomogeneous direction
-channel = argparse.ArgumentParser(parents=[parser])
+channel = argparse.ArgumentParser(parents=[deepcopy(parser)])
 channel.add_argument('--convection', default='Vortex',
                      choices=('Standard', 'Divergence', 'Skew', 'Vortex'),
                      help='Choose method for computing the nonlinear convective term')
-- 
2.43.0


From 17dfa30a7f5c5176853c44e50a4f46ec3529fe91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:35 +0000
Subject: [PATCH 15/25] fix: a callback given at one selection does not reach
 other selections

---
 spectralDNS/__init__.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/spectralDNS/__init__.py b/spectralDNS/__init__.py
index 210ded7..3507a88 100644
--- a/spectralDNS/__init__.py
+++ b/spectralDNS/__init__.py
@@ -48,17 +48,15 @@ def get_solver(update=None,
     try:
         solver = importlib.import_module('.'.join(('spectralDNS.solvers',
                                                    config.params.solver)))
+        spectralinit = importlib.import_module('spectralDNS.solvers.spectralinit')
     except AttributeError:
         raise AttributeError("Wrong solver!")
 
-    if update:
-        solver.update = update
-
-    if regression_test:
-        solver.regression_test = regression_test
-
-    if additional_callback:
-        solver.additional_callback = additional_callback
+    # Hooks that are not given are the default ones, and not what an earlier
+    # selection left in this solver or in the solver it imports from
+    solver.update = update or spectralinit.update
+    solver.regression_test = regression_test or spectralinit.regression_test
+    solver.additional_callback = additional_callback or spectralinit.additional_callback
 
     # Create link to solver module in config
     config.solver = solver
-- 
2.43.0


From 88f4fb11f186bbce12738bd58bdbaa71b4725d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:47 +0000
Subject: [PATCH 16/25] fix: parts of the word Vortex are not names of a
 convection form

---
 spectralDNS/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spectralDNS/config.py b/spectralDNS/config.py
index 7a20b85..d171e12 100644
--- a/spectralDNS/config.py
+++ b/spectralDNS/config.py
@@ -248,7 +248,7 @@ doublyperiodic.add_argument('--integrator', default='RK4',
 doublyperiodic.add_argument('--L', default=[2*pi, 2*pi], nargs=2, metavar=('Lx', 'Ly'),
                             help='Physical mesh size')
 doublyperiodic.add_argument('--convection', default='Vortex',
-                            choices=('Vortex'),
+                            choices=('Vortex',),
                             help='Choose method for computing the nonlinear convective term')
 doublyperiodic.add_argument('--TOL', type=float, default=1e-6,
                             help='Tolerance for adaptive time integrator')
-- 
2.43.0


From 9fee6a3bd2197f081a4eb61f3fecdc096a332596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:11 +0000
Subject: [PATCH 17/25] fix: divergence convection of the channel solver
 differentiates in the space of its products

---
 spectralDNS/solvers/KMM.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/spectralDNS/solvers/KMM.py b/spectralDNS/solvers/KMM.py
index 77a13ef..5076e71 100644
--- a/spectralDNS/solvers/KMM.py
+++ b/spectralDNS/solvers/KMM.py
@@ -326,15 +326,16 @@ def divergenceConvection(rhs, u_dealias, u_hat, K, VFSp, FSTp, FSBp, FCTp, work,
     """c_i = div(u_i u_j)"""
     if not add:
         rhs.fill(0)
-    F_tmp = Function(VFSp, buffer=work[(rhs, 0, True)])
-    F_tmp2 = Function(VFSp, buffer=work[(rhs, 1, True)])
+    VFSTp = VectorSpace([FSTp, FSTp, FSTp]) # All products are transformed with FSTp
+    F_tmp = Function(VFSTp, buffer=work[(rhs, 0, True)])
+    F_tmp2 = Function(VFSTp, buffer=work[(rhs, 1, True)])
     U = u_dealias
 
     F_tmp[0] = FSTp.forward(U[0]*U[0], F_tmp[0])
     F_tmp[1] = FSTp.forward(U[0]*U[1], F_tmp[1])
     F_tmp[2] = FSTp.forward(U[0]*U[2], F_tmp[2])
 
-    F_tmp2 = project(Dx(F_tmp, 0, 1), VFSp, output_array=F_tmp2)
+    F_tmp2 = project(Dx(F_tmp, 0, 1), VFSTp, output_array=F_tmp2)
     rhs += F_tmp2
 
     F_tmp2[0] = FSTp.forward(U[0]*U[1], F_tmp2[0])
-- 
2.43.0


From 23deb87228d50c9077320405d210fe14eda3db21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:59 +0000
Subject: [PATCH 18/25] fix: the mean temperature gradient enters the
 convection with its own sign

---
 spectralDNS/solvers/KMMRK3_RB.py | 2 +-
 spectralDNS/solvers/KMM_RB.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spectralDNS/solvers/KMMRK3_RB.py b/spectralDNS/solvers/KMMRK3_RB.py
index 5ef6458..4cd568b 100644
--- a/spectralDNS/solvers/KMMRK3_RB.py
+++ b/spectralDNS/solvers/KMMRK3_RB.py
@@ -108,7 +108,7 @@ def StandardRBConvection(rhs, u_hat, g_hat, p_hat,
     N = work[(Ua[0], 0, True)]
     Ua = VFSp.backward(u_hat, Ua)
     dTdx_hat = CTD.matvec(p_hat, dTdx_hat)
-    dTdx_hat[0] += 0.5*BTT[0][0]*(p_hat[-2]-p_hat[-1])
+    dTdx_hat[0] += 0.5*BTT[0][0]*(p_hat[-1]-p_hat[-2])
     dTdx_hat = BTT.solve(dTdx_hat)
     dTdxi[0] = FCTp.backward(dTdx_hat, dTdxi[0])
     dTdxi[1] = FSTp.backward(1j*K[1]*p_hat, dTdxi[1])
diff --git a/spectralDNS/solvers/KMM_RB.py b/spectralDNS/solvers/KMM_RB.py
index 0d52600..69da226 100644
--- a/spectralDNS/solvers/KMM_RB.py
+++ b/spectralDNS/solvers/KMM_RB.py
@@ -143,7 +143,7 @@ def StandardRBConvection(rhs, u_hat, g_hat, p_hat,
     N = work[(UCN[0], 0, True)]
     UCN = VFSp.backward(U_hat0, UCN)
     dTdx_hat = CTD.matvec(p_hat, dTdx_hat)
-    dTdx_hat[0] += 0.5*BTT[0][0]*(p_hat[-2]-p_hat[-1])
+    dTdx_hat[0] += 0.5*BTT[0][0]*(p_hat[-1]-p_hat[-2])
     dTdx_hat = BTT.solve(dTdx_hat)
     dTdxi[0] = FCTp.backward(dTdx_hat, dTdxi[0])
     dTdxi[1] = FSTp.backward(1j*K[1]*p_hat, dTdxi[1])
-- 
2.43.0


From 70060b91875b7cef49c00c173092f3cb0105ba75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:59 +0000
Subject: [PATCH 19/25] fix: temperature space and matrices use the configured
 quadrature

---
 spectralDNS/solvers/KMMRK3_RB.py | 2 +-
 spectralDNS/solvers/KMM_RB.py    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/spectralDNS/solvers/KMMRK3_RB.py b/spectralDNS/solvers/KMMRK3_RB.py
index 4cd568b..16d16e0 100644
--- a/spectralDNS/solvers/KMMRK3_RB.py
+++ b/spectralDNS/solvers/KMMRK3_RB.py
@@ -15,7 +15,7 @@ KMMRK3_solve_linear = solve_linear
 def get_context():
     c = KMMRK3_context()
 
-    c.RB = RB = FunctionSpace(config.params.N[0], 'C', bc=(1, 0))
+    c.RB = RB = FunctionSpace(config.params.N[0], 'C', bc=(1, 0), quad=config.params.Dquad)
     c.FRB = FRB = TensorProductSpace(comm, (RB, c.K0, c.K1), **c.kw0)
     c.FRBp = FRBp = FRB.get_dealiased(**c.kw)
 
diff --git a/spectralDNS/solvers/KMM_RB.py b/spectralDNS/solvers/KMM_RB.py
index 69da226..4e56e5a 100644
--- a/spectralDNS/solvers/KMM_RB.py
+++ b/spectralDNS/solvers/KMM_RB.py
@@ -15,7 +15,7 @@ KMM_solve_linear = solve_linear
 def get_context():
     c = KMM_context()
 
-    c.RB = RB = FunctionSpace(config.params.N[0], 'C', bc=(1, 0))
+    c.RB = RB = FunctionSpace(config.params.N[0], 'C', bc=(1, 0), quad=config.params.Dquad)
     c.FRB = FRB = TensorProductSpace(comm, (RB, c.K0, c.K1), **c.kw0)
     c.FRBp = FRBp = FRB.get_dealiased(**c.kw)
 
@@ -43,7 +43,7 @@ def get_context():
     c.la.HelmholtzSolverT = Helmholtz(ADD, BDD,
                                       -np.ones((1, 1, 1)),
                                       (c.K2[0]+2.0/kappa/dt)[np.newaxis, :, :])
-    c.TC = HelmholtzCoeff(config.params.N[0], 1.0, (2./kappa/dt-c.K2), 0)
+    c.TC = HelmholtzCoeff(config.params.N[0], 1.0, (2./kappa/dt-c.K2), 0, RB.quad)
 
     c.hdf5file = RBFile(config.params.solver,
                         checkpoint={'space': c.VFS,
-- 
2.43.0


From 0a76c754e9ebf055f06d3eb982648e163cfd246a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:52 +0000
Subject: [PATCH 20/25] fix: direct dealiasing keeps the wall temperatures

---
 spectralDNS/solvers/KMMRK3_RB.py | 5 +++++
 spectralDNS/solvers/KMM_RB.py    | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/spectralDNS/solvers/KMMRK3_RB.py b/spectralDNS/solvers/KMMRK3_RB.py
index 16d16e0..10ea7b5 100644
--- a/spectralDNS/solvers/KMMRK3_RB.py
+++ b/spectralDNS/solvers/KMMRK3_RB.py
@@ -18,6 +18,11 @@ def get_context():
     c.RB = RB = FunctionSpace(config.params.N[0], 'C', bc=(1, 0), quad=config.params.Dquad)
     c.FRB = FRB = TensorProductSpace(comm, (RB, c.K0, c.K1), **c.kw0)
     c.FRBp = FRBp = FRB.get_dealiased(**c.kw)
+    if c.kw['dealias_direct']:
+        # Truncate the Fourier directions only, because the last coefficients
+        # of RB are the wall temperatures
+        c.FRBp = FRBp = TensorProductSpace(comm, (RB, FRBp.bases[1], FRBp.bases[2]),
+                                           dtype=complex, backward_from_pencil=FRB.forward.output_pencil)
 
     c.dU = Function(c.VFS)  # rhs vector for integrator. Now three components, not two
     c.phi = Array(FRB)
diff --git a/spectralDNS/solvers/KMM_RB.py b/spectralDNS/solvers/KMM_RB.py
index 4e56e5a..064618f 100644
--- a/spectralDNS/solvers/KMM_RB.py
+++ b/spectralDNS/solvers/KMM_RB.py
@@ -18,6 +18,11 @@ def get_context():
     c.RB = RB = FunctionSpace(config.params.N[0], 'C', bc=(1, 0), quad=config.params.Dquad)
     c.FRB = FRB = TensorProductSpace(comm, (RB, c.K0, c.K1), **c.kw0)
     c.FRBp = FRBp = FRB.get_dealiased(**c.kw)
+    if c.kw['dealias_direct']:
+        # Truncate the Fourier directions only, because the last coefficients
+        # of RB are the wall temperatures
+        c.FRBp = FRBp = TensorProductSpace(comm, (RB, FRBp.bases[1], FRBp.bases[2]),
+                                           dtype=complex, backward_from_pencil=FRB.forward.output_pencil)
 
     c.dU = Function(c.VFS)  # rhs vector for integrator. Now three components, not two
     c.phi = Array(FRB)
-- 
2.43.0


From f6fc75ca335b772cf8ad361fc0a6502a76b12e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:10 +0000
Subject: [PATCH 21/25] fix: temperature convection is not overwritten by its
 own output array

StandardRBConvection transformed into the array that it then passed as output
of the mass-matrix product, which clears its output first. The convection of
temperature was therefore identically zero.
---
 spectralDNS/solvers/KMMRK3_RB.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spectralDNS/solvers/KMMRK3_RB.py b/spectralDNS/solvers/KMMRK3_RB.py
index 10ea7b5..fca513a 100644
--- a/spectralDNS/solvers/KMMRK3_RB.py
+++ b/spectralDNS/solvers/KMMRK3_RB.py
@@ -119,8 +119,8 @@ def StandardRBConvection(rhs, u_hat, g_hat, p_hat,
     dTdxi[1] = FSTp.backward(1j*K[1]*p_hat, dTdxi[1])
     dTdxi[2] = FSTp.backward(1j*K[2]*p_hat, dTdxi[2])
     N[:] = Ua[0]*dTdxi[0] + Ua[1]*dTdxi[1] + Ua[2]*dTdxi[2]
-    N_hat = FSTp.forward(N, N_hat)
-    rhs = mat.BDD.matvec(N_hat, rhs)
+    N_s = FSTp.forward(N, N_s)
+    rhs = mat.BDD.matvec(N_s, rhs)
     return rhs
 
 def integrate(u_hat, g_hat, p_hat, rhs, dt, solver, context):
-- 
2.43.0


From cd60de51c8c9e50886d9550998677e5bbf11efad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:35 +0000
Subject: [PATCH 22/25] fix: convection forms and velocity gradient of KMMr
 differentiate along its own wall-normal axis

compute_derivatives, standardConvection and divergenceConvection were written
for a wall-normal axis 0 and called a kernel that does not exist: the standard
and skew-symmetric forms raised, the divergence form was silently wrong.
---
 spectralDNS/solvers/KMMr.py | 96 +++++++++++++++++--------------------
 1 file changed, 43 insertions(+), 53 deletions(-)

diff --git a/spectralDNS/solvers/KMMr.py b/spectralDNS/solvers/KMMr.py
index a38d0ae..9762299 100644
--- a/spectralDNS/solvers/KMMr.py
+++ b/spectralDNS/solvers/KMMr.py
@@ -264,20 +264,20 @@ def compute_curl(c, u_hat, g, K, FCTp, FSTp, FSBp, work):
 def compute_derivatives(U, U_hat, FST, FCT, FSB, K, la, mat, work, **context):
     duidxj = np.zeros((3, 3)+U.shape[1:])
     F_tmp = work[(U_hat, 0, True)]
-    # dudx = 0 from continuity equation. Use Shen Dirichlet basis
-    # Use regular Chebyshev basis for dvdx and dwdx
-    F_tmp[0] = mat.CDB.matvec(U_hat[0], F_tmp[0])
-    F_tmp[0] = la.TDMASolverD(F_tmp[0])
-    duidxj[0, 0] = FST.backward(F_tmp[0], duidxj[0, 0])
-    LUsolve.Mult_CTD_3D_n(params.N[0], U_hat[1], U_hat[2], F_tmp[1], F_tmp[2])
-    duidxj[1, 0] = dvdx = FCT.backward(F_tmp[1], duidxj[1, 0])  # proj to Cheb
-    duidxj[2, 0] = dwdx = FCT.backward(F_tmp[2], duidxj[2, 0])  # proj to Cheb
-    duidxj[0, 1] = dudy = FSB.backward(1j*K[1]*U_hat[0], duidxj[0, 1]) # ShenB
-    duidxj[0, 2] = dudz = FSB.backward(1j*K[2]*U_hat[0], duidxj[0, 2])
+    # dwdz = 0 on walls from continuity equation. Use Shen Dirichlet basis
+    # Use regular Chebyshev basis for dudz and dvdz
+    F_tmp[2] = mat.CDB.matvec(U_hat[2], F_tmp[2], axis=2)
+    F_tmp[2] = la.TDMASolverD(F_tmp[2], axis=2)
+    duidxj[2, 2] = dwdz = FST.backward(F_tmp[2], duidxj[2, 2])
+    LUsolve.Mult_CTD_3D_ptr(params.N[2], U_hat[0], U_hat[1], F_tmp[0], F_tmp[1], 2)
+    duidxj[0, 2] = dudz = FCT.backward(F_tmp[0], duidxj[0, 2])  # proj to Cheb
+    duidxj[1, 2] = dvdz = FCT.backward(F_tmp[1], duidxj[1, 2])  # proj to Cheb
+    duidxj[2, 0] = dwdx = FSB.backward(1j*K[0]*U_hat[2], duidxj[2, 0]) # ShenB
+    duidxj[2, 1] = dwdy = FSB.backward(1j*K[1]*U_hat[2], duidxj[2, 1])
+    duidxj[0, 0] = dudx = FST.backward(1j*K[0]*U_hat[0], duidxj[0, 0])
+    duidxj[0, 1] = dudy = FST.backward(1j*K[1]*U_hat[0], duidxj[0, 1])
+    duidxj[1, 0] = dvdx = FST.backward(1j*K[0]*U_hat[1], duidxj[1, 0])
     duidxj[1, 1] = dvdy = FST.backward(1j*K[1]*U_hat[1], duidxj[1, 1])
-    duidxj[1, 2] = dvdz = FST.backward(1j*K[2]*U_hat[1], duidxj[1, 2])
-    duidxj[2, 1] = dwdy = FST.backward(1j*K[1]*U_hat[2], duidxj[2, 1])
-    duidxj[2, 2] = dwdz = FST.backward(1j*K[2]*U_hat[2], duidxj[2, 2])
     return duidxj
 
 def standardConvection(rhs, u_dealias, u_hat, K, VFSp, FSTp, FSBp, FCTp, work,
@@ -288,30 +288,28 @@ def standardConvection(rhs, u_dealias, u_hat, K, VFSp, FSTp, FSBp, FCTp, work,
     Uc2 = work[(U, 2, True)]
     F_tmp = work[(rhs, 0, True)]
 
-    # dudx = 0 from continuity equation. Use Shen Dirichlet basis
-    # Use regular Chebyshev basis for dvdx and dwdx
-    F_tmp[0] = mat.CDB.matvec(u_hat[0], F_tmp[0])
-    F_tmp[0] = la.TDMASolverD(F_tmp[0])
-    dudx = Uc[0] = FSTp.backward(F_tmp[0], Uc[0])
+    # dwdz = 0 on walls from continuity equation. Use Shen Dirichlet basis
+    # Use regular Chebyshev basis for dudz and dvdz
+    F_tmp[2] = mat.CDB.matvec(u_hat[2], F_tmp[2], axis=2)
+    F_tmp[2] = la.TDMASolverD(F_tmp[2], axis=2)
+    dwdz = Uc[2] = FSTp.backward(F_tmp[2], Uc[2])
 
-    LUsolve.Mult_CTD_3D_n(params.N[0], u_hat[1], u_hat[2], F_tmp[1], F_tmp[2])
-    dvdx = Uc[1] = FCTp.backward(F_tmp[1], Uc[1])
-    dwdx = Uc[2] = FCTp.backward(F_tmp[2], Uc[2])
+    LUsolve.Mult_CTD_3D_ptr(params.N[2], u_hat[0], u_hat[1], F_tmp[0], F_tmp[1], 2)
+    dudz = Uc[0] = FCTp.backward(F_tmp[0], Uc[0])
+    dvdz = Uc[1] = FCTp.backward(F_tmp[1], Uc[1])
 
-    dudy = Uc2[0] = FSBp.backward(1j*K[1]*u_hat[0], Uc2[0])
-    dudz = Uc2[1] = FSBp.backward(1j*K[2]*u_hat[0], Uc2[1])
+    dudx = Uc2[0] = FSTp.backward(1j*K[0]*u_hat[0], Uc2[0])
+    dudy = Uc2[1] = FSTp.backward(1j*K[1]*u_hat[0], Uc2[1])
     rhs[0] = FSTp.forward(U[0]*dudx + U[1]*dudy + U[2]*dudz, rhs[0])
 
     Uc2[:] = 0
-    dvdy = Uc2[0] = FSTp.backward(1j*K[1]*u_hat[1], Uc2[0])
-
-    dvdz = Uc2[1] = FSTp.backward(1j*K[2]*u_hat[1], Uc2[1])
+    dvdx = Uc2[0] = FSTp.backward(1j*K[0]*u_hat[1], Uc2[0])
+    dvdy = Uc2[1] = FSTp.backward(1j*K[1]*u_hat[1], Uc2[1])
     rhs[1] = FSTp.forward(U[0]*dvdx + U[1]*dvdy + U[2]*dvdz, rhs[1])
 
     Uc2[:] = 0
-    dwdy = Uc2[0] = FSTp.backward(1j*K[1]*u_hat[2], Uc2[0])
-    dwdz = Uc2[1] = FSTp.backward(1j*K[2]*u_hat[2], Uc2[1])
-
+    dwdx = Uc2[0] = FSBp.backward(1j*K[0]*u_hat[2], Uc2[0])
+    dwdy = Uc2[1] = FSBp.backward(1j*K[1]*u_hat[2], Uc2[1])
     rhs[2] = FSTp.forward(U[0]*dwdx + U[1]*dwdy + U[2]*dwdz, rhs[2])
 
     return rhs
@@ -325,32 +323,24 @@ def divergenceConvection(rhs, u_dealias, u_hat, K, VFSp, FSTp, FSBp, FCTp, work,
     F_tmp2 = work[(rhs, 1, True)]
     U = u_dealias
 
-    F_tmp[0] = FSTp.forward(U[0]*U[0], F_tmp[0])
-    F_tmp[1] = FSTp.forward(U[0]*U[1], F_tmp[1])
-    F_tmp[2] = FSTp.forward(U[0]*U[2], F_tmp[2])
-
-    F_tmp2[0] = mat.CDD.matvec(F_tmp[0], F_tmp2[0])
-    F_tmp2[1] = mat.CDD.matvec(F_tmp[1], F_tmp2[1])
-    F_tmp2[2] = mat.CDD.matvec(F_tmp[2], F_tmp2[2])
-    F_tmp2[0] = la.TDMASolverD(F_tmp2[0])
-    F_tmp2[1] = la.TDMASolverD(F_tmp2[1])
-    F_tmp2[2] = la.TDMASolverD(F_tmp2[2])
-    rhs[0] += F_tmp2[0]
-    rhs[1] += F_tmp2[1]
-    rhs[2] += F_tmp2[2]
-
-    F_tmp2[0] = FSTp.forward(U[0]*U[1], F_tmp2[0])
-    F_tmp2[1] = FSTp.forward(U[0]*U[2], F_tmp2[1])
-    rhs[0] += 1j*K[1]*F_tmp2[0] # duvdy
-    rhs[0] += 1j*K[2]*F_tmp2[1] # duwdz
-
-    F_tmp[0] = FSTp.forward(U[1]*U[1], F_tmp[0])
+    F_tmp[0] = FSTp.forward(U[0]*U[2], F_tmp[0])
     F_tmp[1] = FSTp.forward(U[1]*U[2], F_tmp[1])
     F_tmp[2] = FSTp.forward(U[2]*U[2], F_tmp[2])
-    rhs[1] += 1j*K[1]*F_tmp[0]  # dvvdy
-    rhs[1] += 1j*K[2]*F_tmp[1]  # dvwdz
-    rhs[2] += 1j*K[1]*F_tmp[1]  # dvwdy
-    rhs[2] += 1j*K[2]*F_tmp[2]  # dwwdz
+
+    for i in range(3):
+        F_tmp2[i] = mat.CDD.matvec(F_tmp[i], F_tmp2[i], axis=2) # du_iwdz
+        F_tmp2[i] = la.TDMASolverD(F_tmp2[i], axis=2)
+    rhs += F_tmp2
+    rhs[2] += 1j*K[0]*F_tmp[0]  # dwudx
+    rhs[2] += 1j*K[1]*F_tmp[1]  # dwvdy
+
+    F_tmp[0] = FSTp.forward(U[0]*U[0], F_tmp[0])
+    F_tmp[1] = FSTp.forward(U[0]*U[1], F_tmp[1])
+    F_tmp[2] = FSTp.forward(U[1]*U[1], F_tmp[2])
+    rhs[0] += 1j*K[0]*F_tmp[0]  # duudx
+    rhs[0] += 1j*K[1]*F_tmp[1]  # duvdy
+    rhs[1] += 1j*K[0]*F_tmp[1]  # dvudx
+    rhs[1] += 1j*K[1]*F_tmp[2]  # dvvdy
 
     return rhs
 
-- 
2.43.0


From 90ac0889b15eb497d69e21eb743d0bb281544264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:25 +0000
Subject: [PATCH 23/25] fix: mesh sizes of an earlier selection must not
 override the sizes of the next one

---
 spectralDNS/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spectralDNS/__init__.py b/spectralDNS/__init__.py
index 3507a88..f20539c 100644
--- a/spectralDNS/__init__.py
+++ b/spectralDNS/__init__.py
@@ -43,6 +43,8 @@ def get_solver(update=None,
     """
     assert parse_args is None or isinstance(parse_args, list)
     args = getattr(getattr(config, mesh), 'parse_args')(parse_args)
+    # Mesh sizes of an earlier selection do not apply to this one
+    config.params.pop('N', None)
     config.params.update(vars(args))
 
     try:
-- 
2.43.0


From a628632a753c468e2695ebaf762e65c2761cd37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:25 +0000
Subject: [PATCH 24/25] fix: planner efforts set for one selection leaked into
 all later ones and into the caller's dictionary

---
 spectralDNS/config.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/spectralDNS/config.py b/spectralDNS/config.py
index d171e12..5c05ea2 100644
--- a/spectralDNS/config.py
+++ b/spectralDNS/config.py
@@ -154,9 +154,9 @@ fft_plans = defaultdict(lambda: "FFTW_MEASURE",
 class PlanAction(argparse.Action):
     """Action for planning FFT"""
     def __call__(self, parser, namespace, values, option_string=None):
-        global fft_plans
-        fft_plans.update(json.loads(values))
-        setattr(namespace, self.dest, fft_plans)
+        plans = deepcopy(getattr(namespace, self.dest))
+        plans.update(json.loads(values))
+        setattr(namespace, self.dest, plans)
 
 # Create an instance of the Params class to hold all parameters for the solvers
 params = Params()
@@ -308,11 +308,11 @@ CoupledRK3.add_argument('--integrator', default='implicit', choices=('implicit',
 
 def update(new, mesh="triplyperiodic"):
     """Update spectralDNS parameters"""
-    global fft_plans
     assert isinstance(new, dict)
     if 'planner_effort' in new:
-        fft_plans.update(new['planner_effort'])
-        new['planner_effort'] = fft_plans
+        plans = deepcopy(globals()[mesh].get_default('planner_effort'))
+        plans.update(new['planner_effort'])
+        new = dict(new, planner_effort=plans)
     globals()[mesh].set_defaults(**new)
     # Defaults of a subparser take precedence over defaults of its parent
     subparsers = {'triplyperiodic': trippelsubparsers,
-- 
2.43.0


From de6b4164243b689cc38706bc0dc0da7eb35f584b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:37 +0000
Subject: [PATCH 25/25] fix: reporting the convection between steps must not
 change what the next step extrapolates from

get_convection computed into the context's H_hat, which end_of_tstep keeps as
the previous level of the Adams-Bashforth scheme.
---
 spectralDNS/solvers/Coupled.py | 3 ++-
 spectralDNS/solvers/KMM.py     | 3 ++-
 spectralDNS/solvers/KMMr.py    | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/spectralDNS/solvers/Coupled.py b/spectralDNS/solvers/Coupled.py
index d968b25..069ffb8 100644
--- a/spectralDNS/solvers/Coupled.py
+++ b/spectralDNS/solvers/Coupled.py
@@ -151,7 +151,8 @@ def set_velocity(U_hat, U, **context):
 def get_convection(H_hat, U_hat, K, VFSp, VCp, FSTp, FCTp, work, u_dealias, curl_dealias, curl_hat, mat, la, **context):
     """Compute convection from context"""
     conv_ = getConvection(params.convection)
-    H_hat = conv_(H_hat, U_hat, K, VFSp, VCp, FSTp, FCTp, work, u_dealias, curl_dealias, curl_hat, mat, la)
+    # Not in H_hat itself, since the next time step extrapolates from that
+    H_hat = conv_(H_hat.copy(), U_hat, K, VFSp, VCp, FSTp, FCTp, work, u_dealias, curl_dealias, curl_hat, mat, la)
     return H_hat
 
 def get_divergence(U_hat, FST, mask, **context):
diff --git a/spectralDNS/solvers/KMM.py b/spectralDNS/solvers/KMM.py
index 5076e71..1f5ae88 100644
--- a/spectralDNS/solvers/KMM.py
+++ b/spectralDNS/solvers/KMM.py
@@ -172,7 +172,8 @@ def get_curl(curl, U_hat, g, K, FCTp, FSTp, FSBp, work, **context):
 def get_convection(H_hat, U_hat, g, K, VFSp, FSTp, FSBp, FCTp, work, mat, la, u_dealias, **context):
     """Compute convection from context"""
     conv_ = getConvection(params.convection)
-    H_hat = conv_(H_hat, U_hat, g, K, VFSp, FSTp, FSBp, FCTp, work, mat, la, u_dealias)
+    # Not in H_hat itself, since the next time step extrapolates from that
+    H_hat = conv_(H_hat.copy(), U_hat, g, K, VFSp, FSTp, FSBp, FCTp, work, mat, la, u_dealias)
     return H_hat
 
 def get_pressure(context, solver):
diff --git a/spectralDNS/solvers/KMMr.py b/spectralDNS/solvers/KMMr.py
index 9762299..703f259 100644
--- a/spectralDNS/solvers/KMMr.py
+++ b/spectralDNS/solvers/KMMr.py
@@ -173,7 +173,8 @@ def get_curl(curl, U_hat, g, work, FCTp, FSTp, FSBp, Kx, **context):
 def get_convection(H_hat, U_hat, g, Kx, VFSp, FSTp, FSBp, FCTp, work, mat, la, u_dealias, **context):
     """Compute convection from context"""
     conv_ = getConvection(params.convection)
-    H_hat = conv_(H_hat, U_hat, g, Kx, VFSp, FSTp, FSBp, FCTp, work, mat, la, u_dealias)
+    # Not in H_hat itself, since the next time step extrapolates from that
+    H_hat = conv_(H_hat.copy(), U_hat, g, Kx, VFSp, FSTp, FSBp, FCTp, work, mat, la, u_dealias)
     return H_hat
 
 def get_pressure(context, solver):
-- 
2.43.0

