From a0e38db78b1612242e125c1c1dff0e14ec847d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:42 +0000
Subject: [PATCH 01/19] fix: IntegrateSys.state returns the current state

---
 ormatex_py/ode_sys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ormatex_py/ode_sys.py b/ormatex_py/ode_sys.py
index 7621263..7ebc3b2 100644
--- a/ormatex_py/ode_sys.py
+++ b/ormatex_py/ode_sys.py
@@ -588,4 +588,4 @@ class IntegrateSys(metaclass=ABCMeta):
         """
         current state
         """
-        self.y_hist[0]
+        return self.y_hist[0]
-- 
2.43.0


From 642669ba07fced59ab3f7a2c7a4dbf71f03a46f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:42 +0000
Subject: [PATCH 02/19] fix: diffrax integration runs nsteps from t0, not to
 dt*nsteps

---
 ormatex_py/integrate_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ormatex_py/integrate_wrapper.py b/ormatex_py/integrate_wrapper.py
index 84e75d4..6eaf5af 100644
--- a/ormatex_py/integrate_wrapper.py
+++ b/ormatex_py/integrate_wrapper.py
@@ -150,7 +150,7 @@ def integrate_diffrax(ode_sys, y0, t0, dt, nsteps, method="implicit_euler", **kw
         solver = method_dict[method](root_finder=root_finder)
     except:
         solver = method_dict[method]()
-    tf = dt * nsteps
+    tf = t0 + dt * nsteps
     step_ctrl = diffrax.ConstantStepSize()
     res = diffrax.diffeqsolve(
             diffrax_ode_sys,
-- 
2.43.0


From 637a137b0b95b989fdd0ff3a57a92787c1e60b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:35 +0000
Subject: [PATCH 03/19] fix: a non-finite model evaluation no longer yields a
 zero update

---
 ormatex_py/matexp_krylov.py | 13 ++++++++++---
 ormatex_py/ode_exp.py       |  6 +++---
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/ormatex_py/matexp_krylov.py b/ormatex_py/matexp_krylov.py
index 4f353b0..686db3c 100644
--- a/ormatex_py/matexp_krylov.py
+++ b/ormatex_py/matexp_krylov.py
@@ -41,7 +41,10 @@ def phi_linop(a_lo: LinOp, dt: float, v0: jax.Array, k: int, max_krylov_dim: int
     """
 
     norm_v0 = jnp.linalg.norm(v0, 2)
-    if norm_v0 > 0:
+    if not jnp.isfinite(norm_v0):
+        # do not mistake a non-finite v0 for a zero vector
+        phi_k_v0 = jnp.full_like(v0, jnp.nan)
+    elif norm_v0 > 0:
         v = v0 / norm_v0
         (q, h) = arnoldi_lop(a_lo, dt, v, max_krylov_dim, iom)
         assert(h.shape[0] > 0)
@@ -91,9 +94,13 @@ def kiops_fixedsteps(a_lo: LinOp, dt: float, vb: list[jax.Array], max_krylov_dim
     n = vb[0].shape[0]
 
     norms_vb = [jnp.linalg.norm(v, 2) for v in vb]
-    norm_vb = max(norms_vb)
+    # jnp.max propagates NaN, unlike the python builtin
+    norm_vb = jnp.max(jnp.asarray(norms_vb))
 
-    if norm_vb > 0:
+    if not jnp.isfinite(norm_vb):
+        # do not mistake a non-finite vb for a zero vector
+        sum_phi_ks = jnp.full_like(vb[0], jnp.nan)
+    elif norm_vb > 0:
         # build B
         # [:0:-1] reverse view from -1 down to 1
         # normalize by the largest vector in vb
diff --git a/ormatex_py/ode_exp.py b/ormatex_py/ode_exp.py
index 9689a4e..5da3f0f 100644
--- a/ormatex_py/ode_exp.py
+++ b/ormatex_py/ode_exp.py
@@ -85,7 +85,7 @@ class ExpRBIntegrator(IntegrateSys):
             # deriv of rhs wrt time at current time
             fytt = sys_jac_lop._fdt()
             # check for nonautonomous system
-            if jnp.linalg.norm(fytt, ord=jax.numpy.inf) > self.tol_fdt:
+            if not jnp.linalg.norm(fytt, ord=jax.numpy.inf) <= self.tol_fdt:
                 return (c**2.)*(dt**2.)*phi_linop(sys_jac_lop, c*dt, fytt, 2, self.max_krylov_dim, self.iom), fytt
         return 0., 0.
 
@@ -324,7 +324,7 @@ class ExpRBIntegrator(IntegrateSys):
         if self.tol_fdt >= 0.:
             # deriv of rhs wrt time at current time
             fytt = sys_jac_lop._fdt()
-            if jnp.linalg.norm(fytt, ord=jax.numpy.inf) > self.tol_fdt:
+            if not jnp.linalg.norm(fytt, ord=jax.numpy.inf) <= self.tol_fdt:
                 phi2J_fytt = f_phi_k_pfd(J*dt, fytt, 2, self.pfd_method)
 
         # TODO eliminate redundant rational solves for nonautonomous system
@@ -354,7 +354,7 @@ class ExpRBIntegrator(IntegrateSys):
         if self.tol_fdt >= 0.:
             # deriv of rhs wrt time at current time
             fytt = sys_jac_lop._fdt()
-            if jnp.linalg.norm(fytt, ord=jax.numpy.inf) > self.tol_fdt:
+            if not jnp.linalg.norm(fytt, ord=jax.numpy.inf) <= self.tol_fdt:
                 phi2J_fytt = self.phikv_dense_rs.eval(J, dt, np.asarray(fytt).reshape(-1,1), 2).flatten()
                 phi2J_fytt = jnp.asarray(phi2J_fytt)
 
-- 
2.43.0


From 1a84213b77b7f574c0d404f407a88456ee0a0838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:36 +0000
Subject: [PATCH 04/19] fix: bound the number of squarings for non-finite
 matrices

---
 ormatex_py/matexp_phi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ormatex_py/matexp_phi.py b/ormatex_py/matexp_phi.py
index d5a7e55..b0fe670 100644
--- a/ormatex_py/matexp_phi.py
+++ b/ormatex_py/matexp_phi.py
@@ -139,6 +139,8 @@ def f_phi_k_sq_all(z: jax.Array, k: int) -> list[jax.Array]:
     scale_fact = 16
     init_poly_deg = 4
     Nscale = jnp.floor(jnp.maximum(0, jnp.log2(theta * scale_fact))).astype(int)
+    # a non-finite argument can not be scaled: the number of squarings must stay bounded
+    Nscale = jnp.where(jnp.isfinite(theta * scale_fact), Nscale, 0)
     tt_N = 2 ** Nscale
 
     # compute the initial approximation of the phi functions for scaled z
-- 
2.43.0


From 5454bb362e0db2c7bd231f0358e1696d45929387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:36 +0000
Subject: [PATCH 05/19] fix: Leja integrators recover after a failed step and
 on reset_ic

---
 ormatex_py/ode_exp.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/ormatex_py/ode_exp.py b/ormatex_py/ode_exp.py
index 5da3f0f..b653026 100644
--- a/ormatex_py/ode_exp.py
+++ b/ormatex_py/ode_exp.py
@@ -466,6 +466,13 @@ class ExpLejaIntegrator(IntegrateSys):
                 gen_leja_fast(a=-2, b=2, n=self.n_leja))
         super().__init__(sys, t0, y0, order, method, **kwargs)
 
+    def reset_ic(self, t0: float, y0: jax.Array):
+        super().reset_ic(t0, y0)
+        # drop the state carried over from previous steps
+        self.leja_substep_size = 1.0
+        self._leja_bk = None
+        self.istep = 0
+
     def _step_epi_re(self, dt: float, frhs_kwargs: dict) -> StepResult:
         """
         Computes the solution update by:
@@ -497,12 +504,13 @@ class ExpLejaIntegrator(IntegrateSys):
         # build augmented linear system
         a_tilde_lo, v, n = build_a_tilde(sys_jac_lop, dt, [vb0, dt*fyt, dt**2*fytt])
 
+        leja_bk = self._leja_bk
         if self.leja_a is None:
             # estimate largest magnitude eigenvalue and corrosponding eigenvec
             # by power iter.  Store eigenvector for next step
             # to speed convergence of power iterations in
             # subsequent calls to power iter method.
-            shift, scale, max_eig, self._leja_bk, _power_iters = leja_shift_scale(
+            shift, scale, max_eig, leja_bk, _power_iters = leja_shift_scale(
                     a_tilde_lo, v.shape[0], self.leja_max_power_iter,
                     self._leja_bk, self.leja_max_re_eig_scale)
         else:
@@ -522,6 +530,8 @@ class ExpLejaIntegrator(IntegrateSys):
 
         y_new = yt + y_update
         y_err = -1.0
+        # only a converged step may seed the next power iteration
+        self._leja_bk = leja_bk
         self.istep += 1
 
         wgt = min(self.istep, 10)
@@ -564,12 +574,13 @@ class ExpLejaIntegrator(IntegrateSys):
             raise NotImplementedError
 
         _power_iters = 0
+        leja_bk = self._leja_bk
         if self.leja_a is None:
             # estimate largest magnitude eigenvalue and corrosponding eigenvec
             # by power iter.  Store eigenvector for next step
             # to speed convergence of power iterations in
             # subsequent calls to power iter method.
-            _, _, max_eig, self._leja_bk, _power_iters = leja_shift_scale(
+            _, _, max_eig, leja_bk, _power_iters = leja_shift_scale(
                     a_tilde_lo, v.shape[0], self.leja_max_power_iter,
                     self._leja_bk, self.leja_max_re_eig_scale)
             leja_a = -jnp.abs(max_eig)
@@ -597,6 +608,8 @@ class ExpLejaIntegrator(IntegrateSys):
 
         y_new = yt + y_update
         y_err = -1.0
+        # only a converged step may seed the next power iteration
+        self._leja_bk = leja_bk
         self.istep += 1
 
         wgt = min(self.istep, 10)
-- 
2.43.0


From 251a9ed7370589fa359b3770d6dd14be2c60cc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:36 +0000
Subject: [PATCH 06/19] fix: dense split integrators drop the cached operators
 when an update fails

---
 ormatex_py/ode_exp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ormatex_py/ode_exp.py b/ormatex_py/ode_exp.py
index b653026..6628768 100644
--- a/ormatex_py/ode_exp.py
+++ b/ormatex_py/ode_exp.py
@@ -762,6 +762,8 @@ class ExpSplitIntegrator(IntegrateSys):
         if not (self._cached_dt and self._cached_dt == dt):
             # TODO: L is only evaluated the first step (t0, y0) or if dt changes.
             #   for some examples, want to update L once t or y changes substantially
+            # the cache is invalid until all of it is updated
+            self._cached_dt = None
             self._cached_sys_lop = self.sys.fl(self.t, self.y_hist[0])
             L = self._cached_sys_lop.dense()
 
-- 
2.43.0


From 8a05667f5d9cceeb7bf648d941eaa9b89db070c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:36 +0000
Subject: [PATCH 07/19] fix: pexprb4 waits for both stages when one fails

---
 ormatex_py/ode_exp.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/ormatex_py/ode_exp.py b/ormatex_py/ode_exp.py
index 6628768..1909b56 100644
--- a/ormatex_py/ode_exp.py
+++ b/ormatex_py/ode_exp.py
@@ -21,7 +21,7 @@ import jax.numpy as jnp
 import numpy as np
 
 from functools import partial
-from concurrent.futures import ThreadPoolExecutor
+from concurrent.futures import ThreadPoolExecutor, wait
 
 from ormatex_py.ode_sys import LinOp, IntegrateSys, OdeSys, OdeSplitSys, StepResult
 from ormatex_py.matexp_krylov import phi_linop, matexp_linop, kiops_fixedsteps
@@ -260,10 +260,15 @@ class ExpRBIntegrator(IntegrateSys):
             return y_3, r_3
 
         # with ThreadPoolExecutor(max_workers=2) as executor:
-        fut_f_u_n2 = self.executor.submit(f_u_n2)
-        fut_f_u_n3 = self.executor.submit(f_u_n3)
-        r_2 = fut_f_u_n2.result()
-        y_3, r_3 = fut_f_u_n3.result()
+        futs = []
+        try:
+            futs.append(self.executor.submit(f_u_n2))
+            futs.append(self.executor.submit(f_u_n3))
+            r_2 = futs[0].result()
+            y_3, r_3 = futs[1].result()
+        finally:
+            # if a stage fails, do not leave the other one running
+            wait(futs)
 
         # compute final update
         vb0 = jnp.zeros(yt.shape)
-- 
2.43.0


From edc844cc5c02f0edc555d11d60546107833058d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 08/19] fix: rk4 accepts a before-step callback like every
 other method

---
 ormatex_py/ode_explicit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ormatex_py/ode_explicit.py b/ormatex_py/ode_explicit.py
index 55e345d..e78b15a 100644
--- a/ormatex_py/ode_explicit.py
+++ b/ormatex_py/ode_explicit.py
@@ -57,7 +57,7 @@ class RKIntegrator(IntegrateSys):
 
         return StepResult(t+dt, dt, y_new, y_err)
 
-    def step(self, dt: float) -> StepResult:
+    def step(self, dt: float, frhs_kwargs: dict={}) -> StepResult:
         if self.method == "rk4":
             return self._step_rk4(dt)
         else:
-- 
2.43.0


From 3056823f30079239aac272fbba0491f763a878e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 09/19] fix: residual stages evaluate the rhs with the step's
 frhs_kwargs

---
 ormatex_py/ode_exp.py | 10 +++++-----
 ormatex_py/ode_sys.py |  9 +++++++--
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/ormatex_py/ode_exp.py b/ormatex_py/ode_exp.py
index 1909b56..d15d7af 100644
--- a/ormatex_py/ode_exp.py
+++ b/ormatex_py/ode_exp.py
@@ -159,7 +159,7 @@ class ExpRBIntegrator(IntegrateSys):
         fytt = sys_jac_lop._fdt()
 
         # residual
-        rn = self._remf(tp, yp, fyt, sys_jac_lop, fytt)
+        rn = self._remf(tp, yp, fyt, sys_jac_lop, fytt, frhs_kwargs=frhs_kwargs)
 
         # use kiops to save 1 calls to arnoldi
         vb0 = jnp.zeros(yt.shape)
@@ -197,7 +197,7 @@ class ExpRBIntegrator(IntegrateSys):
         y_2 = yt \
             + dt*phi_linop(sys_jac_lop, dt, fyt, 1, self.max_krylov_dim, self.iom) \
             + phi2_v
-        r_2 = self._remf(t_2, y_2, fyt, sys_jac_lop, v=v)
+        r_2 = self._remf(t_2, y_2, fyt, sys_jac_lop, v=v, frhs_kwargs=frhs_kwargs)
 
         # compute final update
         y_new = y_2 + 2.*dt*phi_linop(sys_jac_lop, dt, r_2, 3,
@@ -246,7 +246,7 @@ class ExpRBIntegrator(IntegrateSys):
             y_2 = yt \
                 + c_2*dt*phi_linop(sys_jac_lop, c_2*dt, fyt, 1, self.max_krylov_dim, self.iom) \
                 + phi2_v_2
-            r_2 = self._remf(t_2, y_2, fyt, sys_jac_lop, v=v_2)
+            r_2 = self._remf(t_2, y_2, fyt, sys_jac_lop, v=v_2, frhs_kwargs=frhs_kwargs)
             return r_2
 
         # compute U_{n3}
@@ -256,7 +256,7 @@ class ExpRBIntegrator(IntegrateSys):
             y_3 = yt \
                 + c_3*dt*phi_linop(sys_jac_lop, c_3*dt, fyt, 1, self.max_krylov_dim, self.iom) \
                 + phi2_v
-            r_3 = self._remf(t_3, y_3, fyt, sys_jac_lop, v=v)
+            r_3 = self._remf(t_3, y_3, fyt, sys_jac_lop, v=v, frhs_kwargs=frhs_kwargs)
             return y_3, r_3
 
         # with ThreadPoolExecutor(max_workers=2) as executor:
@@ -573,7 +573,7 @@ class ExpLejaIntegrator(IntegrateSys):
         elif order == 3:
             yp = self.y_hist[1] # y_{t-1}
             tp = self.t_hist[1]
-            rn = self._remf(tp, yp, fyt, sys_jac_lop, fytt)
+            rn = self._remf(tp, yp, fyt, sys_jac_lop, fytt, frhs_kwargs=frhs_kwargs)
             a_tilde_lo, v, n = build_a_tilde(sys_jac_lop, dt, [vb0, dt*fyt, dt*(2./3.)*rn + dt**2*fytt])
         else:
             raise NotImplementedError
diff --git a/ormatex_py/ode_sys.py b/ormatex_py/ode_sys.py
index 7ebc3b2..7ae3eb5 100644
--- a/ormatex_py/ode_sys.py
+++ b/ormatex_py/ode_sys.py
@@ -564,15 +564,20 @@ class IntegrateSys(metaclass=ABCMeta):
         self.y_hist.appendleft(s.y)
 
     def _remf(self, tr: float, yr: jax.Array,
-              frhs_yt: jax.Array, sys_jac_lop_yt: LinOp, v=0.0):
+              frhs_yt: jax.Array, sys_jac_lop_yt: LinOp, v=0.0, frhs_kwargs=None):
         """
         Computes remainder R(yr) = frhs(yr) - frhs(yt) - J_yt*(yr-yt) - v*(tr-t0)
         where v = d(frhs)/dt
+
+        frhs_kwargs must be the ones used to compute frhs_yt and sys_jac_lop_yt.
         """
         t = self.t_hist[0]
         yt = self.y_hist[0]
         dt = tr - t
-        frhs_yr = self.sys.frhs(tr, yr)
+        if frhs_kwargs is None or (isinstance(frhs_kwargs, dict) and not frhs_kwargs):
+            frhs_yr = self.sys.frhs(tr, yr)
+        else:
+            frhs_yr = self.sys.frhs(tr, yr, frhs_kwargs=frhs_kwargs)
         jac_yd = sys_jac_lop_yt(yr - yt)
         return frhs_yr - frhs_yt - jac_yd - v*dt
 
-- 
2.43.0


From 6c75a99b3fffc35917f7606836131d25d9039492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 10/19] fix: partial fraction phi-products do not hide infinite
 matrix entries

---
 ormatex_py/matexp_phi.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ormatex_py/matexp_phi.py b/ormatex_py/matexp_phi.py
index b0fe670..84e424d 100644
--- a/ormatex_py/matexp_phi.py
+++ b/ormatex_py/matexp_phi.py
@@ -224,6 +224,9 @@ def f_phi_k_pfd(z: jax.Array, b: jax.Array, k: int, method: str) -> jax.Array:
     """
     N, M, B = _validate_args_appl(z, b, k)
 
+    # an infinite entry would drop out of the solves below and leave a finite result
+    z = jnp.where(jnp.all(jnp.isfinite(z)), z, jnp.nan)
+
     # poles and coefficients for partial fraction decomp.
     ps, cs, c0 = pfd_dict[method]
 
-- 
2.43.0


From 5de456f5e5b95e9778ec82f7805be3346c5adde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 11/19] fix: dense split integrators do not reuse non-finite
 operators

---
 ormatex_py/ode_exp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ormatex_py/ode_exp.py b/ormatex_py/ode_exp.py
index d15d7af..0dfdfb6 100644
--- a/ormatex_py/ode_exp.py
+++ b/ormatex_py/ode_exp.py
@@ -779,7 +779,9 @@ class ExpSplitIntegrator(IntegrateSys):
                 #phikLs = f_phi_k_ext(dt*c*L, max(ks), return_all=True)
                 for k in ks:
                     self._cached_phiLs[(c,k)] = phikLs[k]
-            self._cached_dt = dt
+            # do not reuse operators from a bad evaluation of L
+            if all(jnp.all(jnp.isfinite(phiL)) for phiL in self._cached_phiLs.values()):
+                self._cached_dt = dt
 
         return self._cached_phiLs
 
-- 
2.43.0


From 42fa0670d9c0779529b4ac6869a3450f6296bf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 12/19] fix: finite-difference Jacobian at the zero state

---
 ormatex_py/ode_sys.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ormatex_py/ode_sys.py b/ormatex_py/ode_sys.py
index 7ae3eb5..3bc3a8d 100644
--- a/ormatex_py/ode_sys.py
+++ b/ormatex_py/ode_sys.py
@@ -326,6 +326,8 @@ class FdJacLinOp(SysJacLinOp):
             v: target vector to apply linop to
         """
         u_norm_1 = jnp.linalg.norm(self._u, 1)
+        # the zero state has no scale of its own
+        u_norm_1 = jnp.where(u_norm_1 == 0., 1., u_norm_1)
         scaled_eps = self._eps * u_norm_1
         ieps = self._scale / scaled_eps
         u_pert = self._u + scaled_eps*v
-- 
2.43.0


From 94c13bc84968b73826da56e3138ea7cae7e9c723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:53 +0000
Subject: [PATCH 13/19] fix: diffrax integration takes exactly nsteps steps for
 every t0 and dt

---
 ormatex_py/integrate_wrapper.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ormatex_py/integrate_wrapper.py b/ormatex_py/integrate_wrapper.py
index 6eaf5af..c967d61 100644
--- a/ormatex_py/integrate_wrapper.py
+++ b/ormatex_py/integrate_wrapper.py
@@ -150,12 +150,13 @@ def integrate_diffrax(ode_sys, y0, t0, dt, nsteps, method="implicit_euler", **kw
         solver = method_dict[method](root_finder=root_finder)
     except:
         solver = method_dict[method]()
-    tf = t0 + dt * nsteps
-    step_ctrl = diffrax.ConstantStepSize()
+    # exactly nsteps steps: ConstantStepSize rounds (tf-t0)/dt up and can need one more
+    ts = t0 + dt * jnp.arange(nsteps + 1)
+    step_ctrl = diffrax.StepTo(ts)
     res = diffrax.diffeqsolve(
             diffrax_ode_sys,
             solver,
-            t0, tf, dt, y0,
+            ts[0], ts[-1], None, y0,
             saveat=diffrax.SaveAt(steps=True),
             stepsize_controller=step_ctrl,
             max_steps=nsteps,
-- 
2.43.0


From c27d7c2856c077b2aa695e934a5db155904ef972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:00 +0000
Subject: [PATCH 14/19] fix: Leja error estimate ignores the terms of padded
 leading zeros

---
 ormatex_py/matexp_leja.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ormatex_py/matexp_leja.py b/ormatex_py/matexp_leja.py
index cae41ad..2724c6c 100644
--- a/ormatex_py/matexp_leja.py
+++ b/ormatex_py/matexp_leja.py
@@ -355,7 +355,7 @@ def complex_conj_leja_expmv(a_lo: LinOp, dt: float, u: jax.Array, shift: float,
         vm = (dt*a_lo.matvec(vm) - jnp.real(leja_x_sc[i-1])*vm) / scale
         # apply update (for i==n_leja_real, coeff[i] is complex, we just compute the real part)
         pm += jnp.real(coeffs[i]) * vm
-        err_est = decay_fun(jnp.abs(jnp.real(coeffs[i])) * jnp.linalg.norm(vm), err_est, gamma)
+        # the terms of leading zeros do not see the spectrum: not used for the error estimate
         i += 1
 
     # jax version of the update for a conjugate part
@@ -428,6 +428,9 @@ def real_leja_expmv(a_lo: LinOp, dt: float, u: jax.Array, shift: float, scale: f
 
     converged = (norm_u == 0.)
 
+    # number of leading zeros, their terms do not see the spectrum
+    n_pad = jnp.argmax(jnp.abs(leja_x) > 1e-6)
+
     # leading constant term in polynomia
     pm = coeffs[0] * u
     vm = u
@@ -440,7 +443,8 @@ def real_leja_expmv(a_lo: LinOp, dt: float, u: jax.Array, shift: float, scale: f
         vm = (dt*a_lo.matvec(vm) - leja_x_sc[i-1]*vm) / scale
         # polynomial update
         pm += coeffs[i] * vm
-        err_est = decay_fun(jnp.abs(coeffs[i]) * jnp.linalg.norm(vm), err_est, gamma)
+        err_est = jnp.where(i < n_pad, err_est,
+            decay_fun(jnp.abs(coeffs[i]) * jnp.linalg.norm(vm), err_est, gamma))
 
         i += 1
         converged = err_est < tol*norm_u
-- 
2.43.0


From f997201167a587bee2e2446c7110813f815df495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:18 +0000
Subject: [PATCH 15/19] fix: Taylor divided differences keep their high order
 terms

A polynomial of degree p*2**s has no divided differences beyond that order:
with few squarings they were exactly zero and a diverging Leja interpolation
was taken to have converged.
---
 ormatex_py/matexp_poly.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ormatex_py/matexp_poly.py b/ormatex_py/matexp_poly.py
index fe10abe..a7bc112 100644
--- a/ormatex_py/matexp_poly.py
+++ b/ormatex_py/matexp_poly.py
@@ -144,6 +144,9 @@ def dd_exp_taylor(leja_x, shift, scale, h=1.0, p=20, mu_scale=1.0):
     s_scale = jnp.max(jnp.abs(z))
     # s = jnp.max(jnp.asarray([jnp.ceil(jnp.log2(jnp.linalg.norm(z, 1))-2.42).astype(int),1]))
     s = jnp.max(jnp.asarray([jnp.ceil(jnp.log(s_scale)/jnp.log(2.0)).astype(int),1]))
+    # the result is a polynomial of degree p*2**s: if that is not well above n_leja it has no
+    # accurate high order divided differences, an unfinished interpolation looks converged
+    s = jnp.maximum(s, jnp.ceil(jnp.log2(4. * n_leja / p)).astype(int))
     hs = 1.0/(2.0**s)
 
     # compute divided differnces by taylor series approx to expm
-- 
2.43.0


From 1e8b8001f1dda9c33478e9fa77d060cdbc9ee634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:42 +0000
Subject: [PATCH 16/19] fix: dense split integrators follow a state dependent L

---
 ormatex_py/ode_exp.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ormatex_py/ode_exp.py b/ormatex_py/ode_exp.py
index 0dfdfb6..5b0b6cf 100644
--- a/ormatex_py/ode_exp.py
+++ b/ormatex_py/ode_exp.py
@@ -764,13 +764,16 @@ class ExpSplitIntegrator(IntegrateSys):
 
 
     def _update_dense_phiLs(self, dt: float, cks: list[tuple[float,list[int]]]):
+        # L may depend on t and y, the cache only holds for an unchanged L
+        sys_lop = self.sys.fl(self.t, self.y_hist[0])
+        L = sys_lop.dense()
+        if self._cached_dt and not jnp.array_equal(L, self._cached_L):
+            self._cached_dt = None
         if not (self._cached_dt and self._cached_dt == dt):
-            # TODO: L is only evaluated the first step (t0, y0) or if dt changes.
-            #   for some examples, want to update L once t or y changes substantially
             # the cache is invalid until all of it is updated
             self._cached_dt = None
-            self._cached_sys_lop = self.sys.fl(self.t, self.y_hist[0])
-            L = self._cached_sys_lop.dense()
+            self._cached_sys_lop = sys_lop
+            self._cached_L = L
 
             self._cached_phiLs = dict()
             for c, ks in cks:
-- 
2.43.0


From 21a9cd72088b989a1eaa12837e3dd0bc72a4b93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:18 +0000
Subject: [PATCH 17/19] fix: linear operator of the three species transport
 problem

---
 ormatex_py/progression/rad_1d_3s.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ormatex_py/progression/rad_1d_3s.py b/ormatex_py/progression/rad_1d_3s.py
index 10791c0..ef4db27 100644
--- a/ormatex_py/progression/rad_1d_3s.py
+++ b/ormatex_py/progression/rad_1d_3s.py
@@ -98,7 +98,7 @@ class RAD_SEM(OdeSplitSys):
         # only use Bateman terms for L
         #L = jnp.kron(self.bat_mat, jnp.eye(Ndof))
         # only use adv-diff terms for L
-        L = jnp.kron(jnp.eye(n), (- self.A / self.Ml.reshape((-1, 1))).todense())
+        L = jnp.kron(jnp.eye(n), - self.A.todense() / self.Ml.reshape((-1, 1)))
         #print(L)
         return MatrixLinOp(L)
 
-- 
2.43.0


From 1c35dd9d2d9bc31976932047a2d7f472020a465f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:18 +0000
Subject: [PATCH 18/19] fix: tank volume of the nonlinear Bateman system

---
 ormatex_py/progression/bateman_nonlin_sys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ormatex_py/progression/bateman_nonlin_sys.py b/ormatex_py/progression/bateman_nonlin_sys.py
index f0628f1..261912e 100644
--- a/ormatex_py/progression/bateman_nonlin_sys.py
+++ b/ormatex_py/progression/bateman_nonlin_sys.py
@@ -123,7 +123,7 @@ class NonlinearBateman(OdeSplitSys):
         self.fis_vec = fission_vec
 
     def _frhs(self, t, u, **kwargs):
-        nonlin = srcf_xe_av(u, self.i_xe_a, self.i_xe_g)
+        nonlin = srcf_xe_av(u, self.i_xe_a, self.i_xe_g, tank_vol=self.tank_vol)
         bat = self.bat_mat @ u
         trans = self.n_phi * (self.trans_mat @ u)
         fis = self.n_phi * self.fis_vec
-- 
2.43.0


From eccc47e5726aa1212ee5a887d0297036f2d69170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:18 +0000
Subject: [PATCH 19/19] fix: upwind stabilisation at zero and negative velocity

---
 ormatex_py/progression/advection_diffusion_1d.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ormatex_py/progression/advection_diffusion_1d.py b/ormatex_py/progression/advection_diffusion_1d.py
index ba8ac74..5fd988c 100644
--- a/ormatex_py/progression/advection_diffusion_1d.py
+++ b/ormatex_py/progression/advection_diffusion_1d.py
@@ -49,7 +49,10 @@ def tau_upwind_f(w):
     Computes the SUPG stabilization parameter using the standard
     upwind formulation.
     """
-    return w['tau'] * w.h[:] / (2 * vel_f(**w))
+    # the stabilization terms carry the sign of the velocity themselves,
+    # and vanish where there is no velocity
+    speed = np.abs(vel_f(**w))
+    return w['tau'] * w.h[:] / (2 * np.where(speed > 0, speed, 1.))
 
 @fem.BilinearForm
 def adv_diff(u, v, w):
-- 
2.43.0

