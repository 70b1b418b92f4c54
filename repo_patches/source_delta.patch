From df553136111e34f9951ef61750a7132863a74cec Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 19:22:25 +0000
Subject: [PATCH 01/38] fix: accept any scalar strength in prox_elastic_net on
 pytrees

---
 jaxopt/_src/prox.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jaxopt/_src/prox.py b/jaxopt/_src/prox.py
index 56ed0ec..9cc473c 100644
--- a/jaxopt/_src/prox.py
+++ b/jaxopt/_src/prox.py
@@ -126,9 +126,9 @@ def prox_elastic_net(x: Any,
     hyperparams = (1.0, 1.0)
 
   lam = tree_util.tree_map(lambda y: hyperparams[0]*jnp.ones_like(
-      y), x) if type(hyperparams[0]) == float else hyperparams[0]
+      y), x) if jnp.isscalar(hyperparams[0]) else hyperparams[0]
   gam = tree_util.tree_map(lambda y: hyperparams[1]*jnp.ones_like(
-      y), x) if type(hyperparams[1]) == float else hyperparams[1]
+      y), x) if jnp.isscalar(hyperparams[1]) else hyperparams[1]
 
   def prox_l1(u, lambd): return jnp.sign(u) * jax.nn.relu(jnp.abs(u) - lambd)
 
-- 
2.43.0


From 74d7ba5c09b625a2bbe31c7a627e61ec3cf49f44 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 19:22:25 +0000
Subject: [PATCH 02/38] fix: document the 0.5 factor of the ridge penalties

---
 jaxopt/_src/prox.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jaxopt/_src/prox.py b/jaxopt/_src/prox.py
index 9cc473c..65bec15 100644
--- a/jaxopt/_src/prox.py
+++ b/jaxopt/_src/prox.py
@@ -174,7 +174,7 @@ def prox_ridge(x: Any,
   .. math::
 
     \underset{y}{\text{argmin}} ~ \frac{1}{2} ||x - y||_2^2
-    + \text{scaling} \cdot \text{l2reg} \cdot ||y||_2^2
+    + \text{scaling} \cdot \text{l2reg} \cdot 0.5 \cdot ||y||_2^2
 
   Args:
     x: input pytree.
@@ -199,7 +199,7 @@ def prox_non_negative_ridge(x: Any,
   .. math::
 
     \underset{y \ge 0}{\text{argmin}} ~ \frac{1}{2} ||x - y||_2^2
-    + \text{scaling} \cdot \text{l2reg} \cdot ||y||_2^2
+    + \text{scaling} \cdot \text{l2reg} \cdot 0.5 \cdot ||y||_2^2
 
   Args:
     x: input pytree.
-- 
2.43.0


From e4a2fa3986827b34d5c20dc7cfd14d8689dd2cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:07 +0000
Subject: [PATCH 03/38] fix: broadcast scalar bounds over pytrees in
 projection_box

---
 jaxopt/_src/projection.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jaxopt/_src/projection.py b/jaxopt/_src/projection.py
index 9154b68..5cc65c0 100644
--- a/jaxopt/_src/projection.py
+++ b/jaxopt/_src/projection.py
@@ -69,6 +69,7 @@ def projection_box(x: Any, hyperparams: Tuple) -> Any:
     projected pytree, with the same structure as ``x``.
   """
   lower, upper = hyperparams
+  x, lower, upper = tree_util.broadcast_pytrees(x, lower, upper)
   return tree_util.tree_map(_clip_safe, x, lower, upper)
 
 
-- 
2.43.0


From 039d7b1b4e1399431dffc9384930ab3a4e99691f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:20 +0000
Subject: [PATCH 04/38] fix: keep the mass of zero coordinates in
 projection_l1_sphere

---
 jaxopt/_src/projection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jaxopt/_src/projection.py b/jaxopt/_src/projection.py
index 5cc65c0..4020593 100644
--- a/jaxopt/_src/projection.py
+++ b/jaxopt/_src/projection.py
@@ -223,7 +223,9 @@ def projection_l1_sphere(x: jnp.ndarray, value: float = 1.0) -> jnp.ndarray:
   Returns:
     output array, with the same shape as ``x``.
   """
-  return jnp.sign(x) * projection_simplex(jnp.abs(x), value)
+  # jnp.sign(0) == 0 would lose the mass assigned to zero coordinates.
+  sign = jnp.where(x >= 0, 1, -1).astype(x.dtype)
+  return sign * projection_simplex(jnp.abs(x), value)
 
 
 def projection_l1_ball(x: jnp.ndarray, max_value: float = 1.0) -> jnp.ndarray:
-- 
2.43.0


From c098a417165047492d4262d8bd4873d3f16a2f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:06 +0000
Subject: [PATCH 05/38] fix: accept a root located at the lower end of the
 bisection bracket

---
 jaxopt/_src/bisection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jaxopt/_src/bisection.py b/jaxopt/_src/bisection.py
index 97f259c..98f25a5 100644
--- a/jaxopt/_src/bisection.py
+++ b/jaxopt/_src/bisection.py
@@ -96,9 +96,9 @@ class Bisection(base.IterativeSolver):
     # sign = 1: the function is increasing
     # sign = -1: the function is decreasing
     # sign = 0: the root is not contained in [lower, upper]
-    sign = jnp.where((lower_value < 0) & (upper_value >= 0),
+    sign = jnp.where((lower_value <= 0) & (upper_value >= 0),
                      1,
-                     jnp.where((lower_value > 0) & (upper_value <= 0), -1, 0))
+                     jnp.where((lower_value >= 0) & (upper_value <= 0), -1, 0))
 
     if self.check_bracket:
       # Not jittable...
-- 
2.43.0


From 8d3d33b9df19e52f81b1dad3bec762eddbe2c714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:23 +0000
Subject: [PATCH 06/38] fix: support has_aux in Bisection

---
 jaxopt/_src/bisection.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/jaxopt/_src/bisection.py b/jaxopt/_src/bisection.py
index 98f25a5..aef4a67 100644
--- a/jaxopt/_src/bisection.py
+++ b/jaxopt/_src/bisection.py
@@ -14,6 +14,7 @@
 
 """Bisection algorithm in JAX."""
 
+import functools
 from typing import Any
 from typing import Callable
 from typing import NamedTuple
@@ -90,8 +91,8 @@ class Bisection(base.IterativeSolver):
     lower = jnp.asarray(self.lower, float)
     upper = jnp.asarray(self.upper, float)
 
-    lower_value = self.optimality_fun(lower, *args, **kwargs)
-    upper_value = self.optimality_fun(upper, *args, **kwargs)
+    lower_value, _ = self._fun_with_aux(lower, *args, **kwargs)
+    upper_value, _ = self._fun_with_aux(upper, *args, **kwargs)
 
     # sign = 1: the function is increasing
     # sign = -1: the function is decreasing
@@ -172,7 +173,15 @@ class Bisection(base.IterativeSolver):
     super().__post_init__()
 
     if self.has_aux:
-      self._fun_with_aux = self.optimality_fun
+      fun_with_aux = self.optimality_fun
+      self._fun_with_aux = fun_with_aux
+
+      # Implicit differentiation needs the root function without auxiliary data.
+      @functools.wraps(fun_with_aux)
+      def optimality_fun(*args, **kwargs):
+        return fun_with_aux(*args, **kwargs)[0]
+
+      self.optimality_fun = optimality_fun
     else:
       self._fun_with_aux = lambda *a, **kw: (self.optimality_fun(*a, **kw),
                                              None)
-- 
2.43.0


From c7166ad1cb2c53dc5291a7b3d87d96bbd731219b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:08 +0000
Subject: [PATCH 07/38] fix: use the documented step-size test of the
 madsen-nielsen criterion

---
 jaxopt/_src/levenberg_marquardt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxopt/_src/levenberg_marquardt.py b/jaxopt/_src/levenberg_marquardt.py
index 0820e26..7df8006 100644
--- a/jaxopt/_src/levenberg_marquardt.py
+++ b/jaxopt/_src/levenberg_marquardt.py
@@ -171,7 +171,7 @@ class LevenbergMarquardt(base.IterativeSolver):
     if self.verbose:
       print_iteration(state)
     if self.stop_criterion == 'madsen-nielsen':
-      tree_mul_term = self.xtol * (tree_l2_norm(params) - self.xtol)
+      tree_mul_term = self.xtol * (tree_l2_norm(params) + self.xtol)
       return jnp.all(jnp.array([
         tree_inf_norm(state.gradient) > self.gtol,
         tree_l2_norm(state.delta) > tree_mul_term
-- 
2.43.0


From ea84eb25ee8523ff6922ad9c6f794fad2d039f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:53 +0000
Subject: [PATCH 08/38] fix: start iterative refinement from the residual of
 its warm start

---
 jaxopt/_src/iterative_refinement.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jaxopt/_src/iterative_refinement.py b/jaxopt/_src/iterative_refinement.py
index cb32bfb..b8ee0e2 100644
--- a/jaxopt/_src/iterative_refinement.py
+++ b/jaxopt/_src/iterative_refinement.py
@@ -124,12 +124,14 @@ class IterativeRefinement(base.IterativeSolver):
                  A: Any,
                  b: Any,
                  A_bar: Any = None):
+    # The first correction solves for the residual of the warm start.
+    target_residuals = tree_sub(b, self.matvec_A(A)(init_params))
     return IterativeRefinementState(
       iter_num=jnp.asarray(0),
       error=jnp.asarray(jnp.inf),
-      target_residuals=b,
-      init=init_params,
-      num_matvec_eval=jnp.asarray(0, base.NUM_EVAL_DTYPE),
+      target_residuals=target_residuals,
+      init=self.init_params(A, b, A_bar),
+      num_matvec_eval=jnp.asarray(1, base.NUM_EVAL_DTYPE),
       num_matvec_bar_eval=jnp.asarray(0, base.NUM_EVAL_DTYPE),
       num_solve_eval=jnp.asarray(0, base.NUM_EVAL_DTYPE)
 )
-- 
2.43.0


From 349f1711998c4c6b972621a05fa811ad37f7757b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:43 +0000
Subject: [PATCH 09/38] fix: keep PolyakSGD finite at stationary points

---
 jaxopt/_src/polyak_sgd.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/jaxopt/_src/polyak_sgd.py b/jaxopt/_src/polyak_sgd.py
index 22ed6c3..e38dd30 100644
--- a/jaxopt/_src/polyak_sgd.py
+++ b/jaxopt/_src/polyak_sgd.py
@@ -213,8 +213,16 @@ class PolyakSGD(base.StochasticSolver):
 
     grad_sqnorm = tree_l2_norm(grad, squared=True)
     if self.variant == "SPS_max":
-      stepsize = jnp.minimum(
-          (value - self.fun_min) / (grad_sqnorm + self.delta), self.max_stepsize
+      # the step is zero (instead of 0 / 0) at a stationary point
+      denominator = grad_sqnorm + self.delta
+      stepsize = jnp.where(
+          denominator > 0,
+          jnp.minimum(
+              (value - self.fun_min)
+              / jnp.where(denominator > 0, denominator, 1.0),
+              self.max_stepsize,
+          ),
+          0.0,
       )
     elif self.variant == "SPS+":
       # if grad_sqnorm is smaller than machine epsilon, we set the stepsize to 0
-- 
2.43.0


From 1fc5e9618c2aa7327078b6c713975c08b1cc7ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:58 +0000
Subject: [PATCH 10/38] fix: report the gradient norm at the new parameters in
 NonlinearCG

---
 jaxopt/_src/nonlinear_cg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxopt/_src/nonlinear_cg.py b/jaxopt/_src/nonlinear_cg.py
index 25151d1..ae3ef55 100644
--- a/jaxopt/_src/nonlinear_cg.py
+++ b/jaxopt/_src/nonlinear_cg.py
@@ -255,7 +255,7 @@ class NonlinearCG(base.IterativeSolver):
     new_descent_direction = tree_add_scalar_mul(tree_scalar_mul(-1, tree_conj(new_grad)),
                                                 new_beta,
                                                 descent_direction)
-    error = tree_l2_norm(grad)
+    error = tree_l2_norm(new_grad)
     realdtype = state.error.dtype
     new_state = NonlinearCGState(iter_num=state.iter_num + 1,
                                  stepsize=jnp.asarray(
-- 
2.43.0


From a212745de0f3f45cb15d8a44c3a0649b0831347c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:24 +0000
Subject: [PATCH 11/38] fix: do not let a non-finite trial leak into the
 Levenberg-Marquardt state

---
 jaxopt/_src/levenberg_marquardt.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/jaxopt/_src/levenberg_marquardt.py b/jaxopt/_src/levenberg_marquardt.py
index 7df8006..f6f2879 100644
--- a/jaxopt/_src/levenberg_marquardt.py
+++ b/jaxopt/_src/levenberg_marquardt.py
@@ -295,16 +295,10 @@ class LevenbergMarquardt(base.IterativeSolver):
     gain_ratio_test_not_met_ret = gain_ratio_test_false_func(
         *gain_ratio_test_init_state)
 
-    gain_ratio_test_is_met_ret = jax.tree.map(
-        lambda x: gain_ratio_test_is_met * x, gain_ratio_test_is_met_ret)
-
-    gain_ratio_test_not_met_ret = jax.tree.map(
-        lambda x: (1.0 - gain_ratio_test_is_met) * x,
-        gain_ratio_test_not_met_ret)
-
+    # Note that masking by multiplication would let a non-finite trial through.
     params, damping_factor, increase_factor, residual, gradient, jac, jt, jtj, hess_res, aux = jax.tree.map(
-        lambda x, y: x + y, gain_ratio_test_is_met_ret,
-        gain_ratio_test_not_met_ret)
+        lambda x, y: jnp.where(gain_ratio_test_is_met, x, y),
+        gain_ratio_test_is_met_ret, gain_ratio_test_not_met_ret)
 
     return params, damping_factor, increase_factor, residual, gradient, jac, jt, jtj, hess_res, aux
 
-- 
2.43.0


From 69cd88c4e0a1bcd986edeafbea9d304ee9babb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:34 +0000
Subject: [PATCH 12/38] fix: use jac_fun in LevenbergMarquardt when the
 Jacobian is materialised

---
 jaxopt/_src/levenberg_marquardt.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/jaxopt/_src/levenberg_marquardt.py b/jaxopt/_src/levenberg_marquardt.py
index f6f2879..b3717e4 100644
--- a/jaxopt/_src/levenberg_marquardt.py
+++ b/jaxopt/_src/levenberg_marquardt.py
@@ -484,14 +484,11 @@ class LevenbergMarquardt(base.IterativeSolver):
     if self.materialize_jac:
       if self.jac_fun is None:
         self._jac_fun = jax.jacfwd(self._fun, argnums=(0))
-        if self.geodesic:
-          self._hess_res_fun = jax.jacfwd(
-              jax.jacfwd(self._fun, argnums=(0)), argnums=(0))
-    else:
-      if self.jac_fun:
+      else:
         self._jac_fun = self.jac_fun
-        if self.geodesic:
-          self._hess_res_fun = jax.jacfwd(self.jac_fun, argnums=(0))
+      if self.geodesic:
+        self._hess_res_fun = jax.jacfwd(self._jac_fun, argnums=(0))
+    else:
       if self.solver == 'qr':
         raise ValueError("QR factorization solver materializes Jacobian to solve the augmented "
                          "Jacobian equation instead of the normal equation. Hence, this solver "
-- 
2.43.0


From 91f054556f545b4163a8e1f0ade8dba938dafc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:13 +0000
Subject: [PATCH 13/38] fix: do not read a null direction as an infeasibility
 certificate in BoxOSQP

---
 jaxopt/_src/osqp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jaxopt/_src/osqp.py b/jaxopt/_src/osqp.py
index 83cb920..dda0752 100644
--- a/jaxopt/_src/osqp.py
+++ b/jaxopt/_src/osqp.py
@@ -554,6 +554,8 @@ class BoxOSQP(base.IterativeSolver):
     certif_A   = tree_reduce(jnp.logical_and, tree_map(jnp.logical_and, certif_l, certif_u))
 
     certif_dual_infeasible = jnp.logical_and(jnp.logical_and(certif_Q <= criterion, certif_c <= criterion), certif_A)
+    # a null direction certifies nothing.
+    certif_dual_infeasible = jnp.logical_and(certif_dual_infeasible, criterion > 0)
 
     if int(self.verbose) >= 2:
       jax.debug.print("certif_Q: {certif_Q} certif_c: {certif_c} certif_A: {certif_A} "
@@ -576,6 +578,8 @@ class BoxOSQP(base.IterativeSolver):
     dy_minus  = tree_negative(tree_map(jax.nn.relu, tree_negative(delta_y)))
     certif_lu = tree_add(tree_vdot(bounded_l, dy_minus), tree_vdot(bounded_u, dy_plus))
     certif_primal_infeasible = jnp.logical_and(certif_A  <= criterion, certif_lu  <= criterion)
+    # a null direction certifies nothing.
+    certif_primal_infeasible = jnp.logical_and(certif_primal_infeasible, criterion > 0)
 
     if int(self.verbose) >= 2:
       jax.debug.print("certif_A: {certif_A}, certif_lu: {certif_lu}, criterion: {criterion}",
-- 
2.43.0


From 495768ea915d54374f4b6727f6e7b8a3f0fbd95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:19 +0000
Subject: [PATCH 14/38] fix: read the auxiliary output of value_and_grad
 objectives in ProximalGradient.init_state

---
 jaxopt/_src/proximal_gradient.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jaxopt/_src/proximal_gradient.py b/jaxopt/_src/proximal_gradient.py
index 76dba7e..584dfb2 100644
--- a/jaxopt/_src/proximal_gradient.py
+++ b/jaxopt/_src/proximal_gradient.py
@@ -179,7 +179,7 @@ class ProximalGradient(base.IterativeSolver):
     del hyperparams_prox  # Not used.
 
     if self.has_aux:
-      _, aux = self.fun(init_params, *args, **kwargs)
+      _, aux = self._fun_with_aux(init_params, *args, **kwargs)
     else:
       aux = None
 
@@ -332,6 +332,7 @@ class ProximalGradient(base.IterativeSolver):
                                value_and_grad=self.value_and_grad,
                                has_aux=self.has_aux)
     fun_without_aux = lambda *a, **kw: fun_with_aux(*a, **kw)[0]
+    self._fun_with_aux = fun_with_aux
 
     # Sets up reference signature.
     fun = getattr(self.fun, "subfun", self.fun)
-- 
2.43.0


From e5ff6fc695ee507e2aa362de6a41a84196a71b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:19 +0000
Subject: [PATCH 15/38] fix: forward implicit_diff_solve from ProjectedGradient
 to its inner solver

---
 jaxopt/_src/projected_gradient.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jaxopt/_src/projected_gradient.py b/jaxopt/_src/projected_gradient.py
index 5093e54..291e01d 100644
--- a/jaxopt/_src/projected_gradient.py
+++ b/jaxopt/_src/projected_gradient.py
@@ -157,5 +157,6 @@ class ProjectedGradient(base.IterativeSolver):
                                 decrease_factor=self.decrease_factor,
                                 verbose=self.verbose,
                                 implicit_diff=self.implicit_diff,
+                                implicit_diff_solve=self.implicit_diff_solve,
                                 jit=self.jit,
                                 unroll=self.unroll)
-- 
2.43.0


From 2a4a6660c860a04c4eafe1d040fd60e69df51c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:19 +0000
Subject: [PATCH 16/38] fix: keep the BoxOSQP stepsize finite when a reference
 norm is zero

---
 jaxopt/_src/osqp.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/jaxopt/_src/osqp.py b/jaxopt/_src/osqp.py
index dda0752..0e85b0e 100644
--- a/jaxopt/_src/osqp.py
+++ b/jaxopt/_src/osqp.py
@@ -517,10 +517,11 @@ class BoxOSQP(base.IterativeSolver):
   def _update_stepsize(self, rho_bar, solver_state, primal_residuals, dual_residuals, Q, c, A, x, y):
     """Update stepsize based on the ratio between primal and dual residuals."""
     Ax, ATy     = A.matvec_and_rmatvec(x, y)
-    primal_coef = tree_inf_norm(primal_residuals) / tree_inf_norm(Ax)
+    Ax_inf      = tree_inf_norm(Ax)
     max_inf     = jnp.maximum(tree_inf_norm(Q(x)), jnp.maximum(tree_inf_norm(ATy), tree_inf_norm(c)))
-    dual_coef   = tree_inf_norm(dual_residuals) / max_inf
-    eps_div     = jnp.finfo(dual_coef.dtype).eps
+    eps_div     = jnp.finfo(max_inf.dtype).eps
+    primal_coef = tree_inf_norm(primal_residuals) / (Ax_inf + eps_div)
+    dual_coef   = tree_inf_norm(dual_residuals) / (max_inf + eps_div)
     coef        = jnp.sqrt(primal_coef / (dual_coef + eps_div))
     rho_bar     = jnp.clip(rho_bar * coef, self.rho_min, self.rho_max)
     solver_state = self._eq_qp_solve_impl.update_stepsize(solver_state, rho_bar)
-- 
2.43.0


From dffbad18981a6320d520295d5d1987c35359d892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:10 +0000
Subject: [PATCH 17/38] fix: sum the Broyden inner products over all leaves

---
 jaxopt/_src/broyden.py | 40 +++++++++++++---------------------------
 1 file changed, 13 insertions(+), 27 deletions(-)

diff --git a/jaxopt/_src/broyden.py b/jaxopt/_src/broyden.py
index 9670813..9916eb4 100644
--- a/jaxopt/_src/broyden.py
+++ b/jaxopt/_src/broyden.py
@@ -23,6 +23,7 @@ from typing import Optional
 from typing import Union
 
 from dataclasses import dataclass
+import operator
 
 import jax
 import jax.numpy as jnp
@@ -34,33 +35,11 @@ from jaxopt.tree_util import tree_vdot
 from jaxopt.tree_util import tree_add_scalar_mul
 from jaxopt.tree_util import tree_scalar_mul
 from jaxopt.tree_util import tree_sub
+from jaxopt.tree_util import tree_reduce
 from jaxopt.tree_util import tree_l2_norm
 from jaxopt._src.tree_util import tree_single_dtype
 
 
-def matvec(d_history, c_history, x, indices):
-  # CD^T x
-  # here j is the history dimension and i is the space dimension
-  dtx = jnp.einsum('j..., ... -> j', d_history[indices], x)
-  cdtx = jnp.einsum('j..., j -> ...', c_history[indices], dtx)
-  return cdtx
-
-def inv_jacobian_product_leaf(v: jnp.ndarray,
-                              d_history: jnp.ndarray,
-                              c_history: jnp.ndarray,
-                              gamma: float = 1.0,
-                              start: int= 0):
-  # the computation of the jacobian inverse for
-  # the Broyden method
-  # this is done using the notations of DEQ
-  history_size = len(d_history)
-
-  indices = (start + jnp.arange(history_size)) % history_size
-
-  v = gamma * v + matvec(d_history, c_history, v, indices)
-  return v
-
-
 def inv_jacobian_product(pytree: Any,
                          d_history: Any,
                          c_history: Any,
@@ -84,10 +63,17 @@ def inv_jacobian_product(pytree: Any,
       i.e., `gamma * I`.
     start: starting index in the circular buffer.
   """
-  fun = partial(inv_jacobian_product_leaf,
-                gamma=gamma,
-                start=start)
-  return tree_map(fun, pytree, d_history, c_history)
+  history_size = len(jax.tree_util.tree_leaves(d_history)[0])
+  indices = (start + jnp.arange(history_size)) % history_size
+
+  # here j is the history dimension and the ellipsis are the space dimensions,
+  # the inner products run over all the leaves
+  dtx = tree_reduce(operator.add, tree_map(
+      lambda d, v: jnp.einsum('j..., ... -> j', d[indices], v),
+      d_history, pytree))
+  return tree_map(
+      lambda c, v: gamma * v + jnp.einsum('j..., j -> ...', c[indices], dtx),
+      c_history, pytree)
 
 def inv_jacobian_rproduct(pytree: Any,
                           d_history: Any,
-- 
2.43.0


From 2c924212458191157e70989c4dd5ebd8e3b1ab62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:11 +0000
Subject: [PATCH 18/38] fix: do not accept Levenberg-Marquardt steps whose
 predicted reduction is not positive

---
 jaxopt/_src/levenberg_marquardt.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jaxopt/_src/levenberg_marquardt.py b/jaxopt/_src/levenberg_marquardt.py
index b3717e4..a113ced 100644
--- a/jaxopt/_src/levenberg_marquardt.py
+++ b/jaxopt/_src/levenberg_marquardt.py
@@ -325,7 +325,10 @@ class LevenbergMarquardt(base.IterativeSolver):
     # Current value of loss function F=0.5*||f||^2.
     loss_next = 0.5 * jnp.sum(jnp.square(residual_next))
 
-    gain_ratio = (loss_curr - loss_next) / gain_ratio_denom
+    # With geodesic acceleration, the predicted reduction may not be positive:
+    # such a step must not be accepted on the ground that the loss increases.
+    gain_ratio = jnp.where(gain_ratio_denom > 0,
+                           (loss_curr - loss_next) / gain_ratio_denom, 0.0)
 
     gain_ratio_test_init_state = (params, damping_factor, increase_factor,
                                   residual, gradient, jac, jt, jtj, hess_res,
-- 
2.43.0


From 7c85fd84ec075680fda80738c453388774d107d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:18 +0000
Subject: [PATCH 19/38] fix: has_aux in the SciPy root finding and
 least-squares wrappers no longer recurses forever

---
 jaxopt/_src/scipy_wrappers.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/jaxopt/_src/scipy_wrappers.py b/jaxopt/_src/scipy_wrappers.py
index fcd116e..ab9ddb9 100644
--- a/jaxopt/_src/scipy_wrappers.py
+++ b/jaxopt/_src/scipy_wrappers.py
@@ -560,13 +560,15 @@ class ScipyRootFinding(ScipyWrapper):
     return base.OptStep(params, info)
 
   def __post_init__(self):
-    super().__post_init__()
-
     if self.has_aux:
+      fun_with_aux = self.optimality_fun
       def optimality_fun(x, *args, **kwargs):
-        return self.optimality_fun(x, *args, **kwargs)[0]
+        return fun_with_aux(x, *args, **kwargs)[0]
       self.optimality_fun = optimality_fun
 
+    # Sets up implicit diff from the residuals only.
+    super().__post_init__()
+
     # Pre-compile useful functions.
     self._jac_fun = (jax.jacrev(self.optimality_fun) if self.use_jacrev
                      else jax.jacfwd(self.optimality_fun))
@@ -709,7 +711,8 @@ class ScipyLeastSquares(ScipyWrapper):
           self.options[k] = v
 
     if self.has_aux:
-      self.fun = lambda x, *args, **kwargs: self.fun(x, *args, **kwargs)[0]
+      fun_with_aux = self.fun
+      self.fun = lambda x, *args, **kwargs: fun_with_aux(x, *args, **kwargs)[0]
 
     # Handles PyTree inputs for `x_scale` arg.
     if self.options['x_scale'] != 'jac' and not isinstance(
-- 
2.43.0


From 41977077524d0e919a2fc84121267750580868b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:18 +0000
Subject: [PATCH 20/38] fix: huber loss of ScipyLeastSquares is linear for
 large negative residuals too

---
 jaxopt/_src/scipy_wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxopt/_src/scipy_wrappers.py b/jaxopt/_src/scipy_wrappers.py
index ab9ddb9..d96b43a 100644
--- a/jaxopt/_src/scipy_wrappers.py
+++ b/jaxopt/_src/scipy_wrappers.py
@@ -583,7 +583,7 @@ class ScipyRootFinding(ScipyWrapper):
 LS_RHO_FUNS = {
     'linear': lambda z: z ** 2,
     'soft_l1': lambda z: 2.0 * ((1 + z ** 2) ** 0.5 - 1),
-    'huber': lambda z: jnp.where(z <= 1, z ** 2, 2.0 * z - 1),
+    'huber': lambda z: jnp.where(jnp.abs(z) <= 1, z ** 2, 2.0 * jnp.abs(z) - 1),
     'cauchy': lambda z: jnp.log1p(z ** 2),
     'arctan': lambda z: jnp.arctan(z ** 2),
 }
-- 
2.43.0


From b0f6170ca19791673e9ec740cd148b23bfc07c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:51 +0000
Subject: [PATCH 21/38] fix: implicit differentiation of bounded SciPy wrappers
 with bounds=None

---
 jaxopt/_src/scipy_wrappers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jaxopt/_src/scipy_wrappers.py b/jaxopt/_src/scipy_wrappers.py
index d96b43a..c0035e8 100644
--- a/jaxopt/_src/scipy_wrappers.py
+++ b/jaxopt/_src/scipy_wrappers.py
@@ -435,6 +435,8 @@ class ScipyBoundedMinimize(ScipyMinimize):
 
   def optimality_fun(self, sol, bounds, *args, **kwargs):
     """Optimality function mapping compatible with `@custom_root`."""
+    if bounds is None:
+      return self._grad_fun(sol, *args, **kwargs)
     fp = self._fixed_point_fun(sol, bounds, args, kwargs)
     return tree_sub(fp, sol)
 
@@ -767,6 +769,8 @@ class ScipyBoundedLeastSquares(ScipyLeastSquares):
 
   def optimality_fun(self, sol, bounds, *args, **kwargs):
     """Optimality function mapping compatible with `@custom_root`."""
+    if bounds is None:
+      return self._grad_cost_fun(sol, *args, **kwargs)
     fp = self._fixed_point_fun(sol, bounds, args, kwargs)
     return tree_sub(fp, sol)
 
-- 
2.43.0


From 674dfeea232caf7d1b76969d4bb1f0c3a82d7724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:58 +0000
Subject: [PATCH 22/38] fix: implicit differentiation of Gauss-Newton and
 Levenberg-Marquardt in keyword arguments

---
 jaxopt/_src/gauss_newton.py        | 1 +
 jaxopt/_src/levenberg_marquardt.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/jaxopt/_src/gauss_newton.py b/jaxopt/_src/gauss_newton.py
index ea1d89c..0cd4f1e 100644
--- a/jaxopt/_src/gauss_newton.py
+++ b/jaxopt/_src/gauss_newton.py
@@ -150,6 +150,7 @@ class GaussNewton(base.IterativeSolver):
       residual = self._fun(params, *args, **kwargs)
       return self._jt_op(params, residual, *args, **kwargs)
     self.optimality_fun = optimality_fun
+    self.reference_signature = self.residual_fun
 
   def _jtj_op(self, params, vec, *args, **kwargs):
     """Product with J.T J"""
diff --git a/jaxopt/_src/levenberg_marquardt.py b/jaxopt/_src/levenberg_marquardt.py
index a113ced..89d9932 100644
--- a/jaxopt/_src/levenberg_marquardt.py
+++ b/jaxopt/_src/levenberg_marquardt.py
@@ -477,6 +477,7 @@ class LevenbergMarquardt(base.IterativeSolver):
     else:
       self._fun = self.residual_fun
       self._fun_with_aux = lambda *a, **kw: (self.residual_fun(*a, **kw), None)
+    self.reference_signature = self.residual_fun
 
     # Define maximum value for the damping factor and increase factor. This is
     # particularly helpful for X32 usage.
-- 
2.43.0


From a1014b8d60e29cd88e01039bd54dfa550b52ad04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:00 +0000
Subject: [PATCH 23/38] fix: coordinate-wise Lipschitz constants of the
 multiclass SVM dual depend on l2reg

---
 jaxopt/_src/objective.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxopt/_src/objective.py b/jaxopt/_src/objective.py
index d7776b6..9576ff7 100644
--- a/jaxopt/_src/objective.py
+++ b/jaxopt/_src/objective.py
@@ -327,7 +327,7 @@ class MulticlassLinearSvmDual(CompositeLinearFunction):
   def columnwise_lipschitz_const(self, l2reg, data):
     """Column-wise Lipschitz constants."""
     linop = self.make_linop(l2reg, data)
-    return linop.column_l2_norms(squared=True)
+    return linop.column_l2_norms(squared=True) / l2reg
 
   def b(self, l2reg, data):
     return data[1] - 1
-- 
2.43.0


From a3c86cf040e3eaf250654802b731c5bc95288b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:33 +0000
Subject: [PATCH 24/38] fix: flatten the operator when solve_cholesky gets a
 matrix right-hand side

---
 jaxopt/_src/linear_solve.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jaxopt/_src/linear_solve.py b/jaxopt/_src/linear_solve.py
index 34b5d0d..ca56b33 100644
--- a/jaxopt/_src/linear_solve.py
+++ b/jaxopt/_src/linear_solve.py
@@ -95,6 +95,7 @@ def solve_cholesky(matvec: Callable,
   elif len(b.shape) == 1:
     return jsp.linalg.solve(A, b, assume_a='pos')
   elif len(b.shape) == 2:
+    A = A.reshape(-1, b.shape[0] * b.shape[1])  # 2d array (matrix)
     return  jsp.linalg.solve(A, b.ravel(), assume_a='pos').reshape(*b.shape)
   else:
     raise NotImplementedError
-- 
2.43.0


From a7402610d3cf280434261624665f13c714f97b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:48 +0000
Subject: [PATCH 25/38] fix: dense linear solvers accept scalar systems under
 jit

---
 jaxopt/_src/linear_solve.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jaxopt/_src/linear_solve.py b/jaxopt/_src/linear_solve.py
index ca56b33..e0c32d0 100644
--- a/jaxopt/_src/linear_solve.py
+++ b/jaxopt/_src/linear_solve.py
@@ -58,7 +58,7 @@ def solve_lu(matvec: Callable,
     matvec = _make_ridge_matvec(matvec, ridge=ridge)
   A = _materialize_array(matvec, b.shape, b.dtype) # 4d array (tensor) if len(b.shape) == 2
   if len(b.shape) == 0:
-    if A == 0.0:
+    if not isinstance(A, jax.core.Tracer) and A == 0.0:
       raise ValueError('A should be non-zero for scalar b.')
     return b / A
   elif len(b.shape) == 1:
@@ -89,7 +89,7 @@ def solve_cholesky(matvec: Callable,
     matvec = _make_ridge_matvec(matvec, ridge=ridge)
   A = _materialize_array(matvec, b.shape)
   if len(b.shape) == 0:
-    if A == 0.0:
+    if not isinstance(A, jax.core.Tracer) and A == 0.0:
       raise ValueError('A should be non-zero for scalar b.')
     return b / A
   elif len(b.shape) == 1:
@@ -120,7 +120,7 @@ def solve_inv(matvec: Callable,
     matvec = _make_ridge_matvec(matvec, ridge=ridge)
   A = _materialize_array(matvec, b.shape)
   if len(b.shape) == 0:
-    if A == 0.0:
+    if not isinstance(A, jax.core.Tracer) and A == 0.0:
       raise ValueError('A should be non-zero for scalar b.')
     return b / A
   elif len(b.shape) == 1:
@@ -149,7 +149,7 @@ def solve_qr(matvec: Callable,
     matvec = _make_ridge_matvec(matvec, ridge=ridge)
   A = _materialize_array(matvec, b.shape)
   if len(b.shape) == 0:
-    if A == 0.0:
+    if not isinstance(A, jax.core.Tracer) and A == 0.0:
       raise ValueError('A should be non-zero for scalar b.')
     return b / A
   elif len(b.shape) == 1:
-- 
2.43.0


From 1dd687c1e01dec3b61b08589390179e234d99383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:36 +0000
Subject: [PATCH 26/38] fix: evaluate fun at x in the BoxOSQP optimality
 conditions

---
 jaxopt/_src/osqp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jaxopt/_src/osqp.py b/jaxopt/_src/osqp.py
index 0e85b0e..1fae4f6 100644
--- a/jaxopt/_src/osqp.py
+++ b/jaxopt/_src/osqp.py
@@ -100,7 +100,9 @@ def _make_osqp_optimality_fun(matvec_Q, matvec_A, fun):
       qp_obj = tree_add_scalar_mul(tree_vdot(c, x), 0.5, tree_vdot(x, Q(x)))
       return qp_obj
   else:
-    obj_fun = fun
+    def obj_fun(primal_var, params_obj):
+      x, _ = primal_var
+      return fun(x, params_obj)
 
   def eq_fun(primal_var, params_eq):
     # constraint Ax=z associated to y^T(Ax-z)=0
-- 
2.43.0


From c8cf01817f5db1bd1465ce324756c9ddd11adb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:36 +0000
Subject: [PATCH 27/38] fix: Jacobi preconditioning of BoxOSQP for pytrees of
 matrices

---
 jaxopt/_src/osqp.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/jaxopt/_src/osqp.py b/jaxopt/_src/osqp.py
index 1fae4f6..a8e4416 100644
--- a/jaxopt/_src/osqp.py
+++ b/jaxopt/_src/osqp.py
@@ -219,8 +219,7 @@ class OSQPIndirectSolver:
     _, (_, _, sigma, rho_bar), (precond_Q, precond_A) = solver_state
 
     diag_precond = tree_add_scalar_mul(precond_Q, rho_bar, precond_A)
-    diag_precond = tree_add(diag_precond, sigma)
-    inv_diag = tree_map(lambda m_diag: 1/m_diag, diag_precond)
+    inv_diag = tree_map(lambda m_diag: 1/(m_diag + sigma), diag_precond)
     return tree_mul(inv_diag, x)
 
   def init_state(self, init_params, params_Q, params_A, sigma, rho_bar):
-- 
2.43.0


From 8b1756f0deab1fb8074b9ece491c4679838399bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:36 +0000
Subject: [PATCH 28/38] fix: support pytrees in EqualityConstrainedQP
 objectives given as fun

---
 jaxopt/_src/eq_qp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxopt/_src/eq_qp.py b/jaxopt/_src/eq_qp.py
index 0e97a3a..8f0a5ae 100644
--- a/jaxopt/_src/eq_qp.py
+++ b/jaxopt/_src/eq_qp.py
@@ -292,7 +292,7 @@ class EqualityConstrainedQP(base.Solver):
         # nabla_x f(x) = Q x + c
         # Qx = nabla_x f(x) - c
         def fun_minus_cx(xx):
-          return self.fun(xx, params_Q) - jnp.sum(c*xx)
+          return self.fun(xx, params_Q) - tree_vdot(c, xx)
         Qx = jax.grad(fun_minus_cx)(x)
         return Qx
       self.matvec_Q = matvec_Q
-- 
2.43.0


From f340af291a4235ad9cd7fc926ae83e74e8cc1c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:10 +0000
Subject: [PATCH 29/38] fix: do not modify the option dictionaries given to the
 SciPy wrappers

---
 jaxopt/_src/scipy_wrappers.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/jaxopt/_src/scipy_wrappers.py b/jaxopt/_src/scipy_wrappers.py
index c0035e8..4c90cfa 100644
--- a/jaxopt/_src/scipy_wrappers.py
+++ b/jaxopt/_src/scipy_wrappers.py
@@ -401,8 +401,8 @@ class ScipyMinimize(ScipyWrapper):
       self._grad_fun = jax.jit(self._grad_fun)
       self._value_and_grad_fun = jax.jit(self._value_and_grad_fun)
 
-    if self.options is None:
-      self.options = {}
+    # Copy: the dictionary of the caller must not be modified.
+    self.options = {} if self.options is None else dict(self.options)
     if 'maxiter' in self.options:
       raise ValueError("Cannot pass maxiter through options dictionary, use maxiter keyword argument instead.")
     self.options['maxiter'] = self.maxiter
@@ -705,12 +705,8 @@ class ScipyLeastSquares(ScipyWrapper):
   def __post_init__(self):
     super().__post_init__()
 
-    if self.options is None:
-      self.options = LS_DEFAULT_OPTIONS
-    else:
-      for k, v in LS_DEFAULT_OPTIONS.items():
-        if k not in self.options:
-          self.options[k] = v
+    # Copy: neither the defaults nor the dictionary of the caller must be modified.
+    self.options = {**LS_DEFAULT_OPTIONS, **(self.options or {})}
 
     if self.has_aux:
       fun_with_aux = self.fun
-- 
2.43.0


From e355e89297dbc39bbdbcf06c4bea2c142afd2fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:47 +0000
Subject: [PATCH 30/38] fix: project the primal infeasibility certificate of
 BoxOSQP on unbounded sides

---
 jaxopt/_src/osqp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jaxopt/_src/osqp.py b/jaxopt/_src/osqp.py
index a8e4416..98cde32 100644
--- a/jaxopt/_src/osqp.py
+++ b/jaxopt/_src/osqp.py
@@ -596,6 +596,10 @@ class BoxOSQP(base.IterativeSolver):
   def _check_infeasability(self, prev_sol, sol, error, status, Q, c, A, l, u):
     delta_x = tree_sub(sol.primal[0], prev_sol.primal[0])
     delta_y = tree_sub(sol.dual_eq, prev_sol.dual_eq)
+    # components pushing against infinite bounds certify nothing: project on the
+    # polar of the recession cone of the box, as required by the certificate.
+    delta_y = tree_map(lambda dy, ui: jnp.where(ui == jnp.inf, -jax.nn.relu(-dy), dy), delta_y, u)
+    delta_y = tree_map(lambda dy, li: jnp.where(li == -jnp.inf, jax.nn.relu(dy), dy), delta_y, l)
     Adx, ATdy = A.matvec_and_rmatvec(delta_x, delta_y)
 
     error, status = self._check_dual_infeasability(error, status, delta_x, Q, c, Adx, l, u)
-- 
2.43.0


From d9619c9522e2483150a16ff141179000ad69046a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:14 +0000
Subject: [PATCH 31/38] fix: control variate of make_perturbed_fun with array
 outputs

output_pert carries a trailing axis that the unperturbed output lacked, so the
difference broadcast to the wrong shape and differentiating raised an error for
every output with more than one entry.
---
 jaxopt/_src/perturbations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxopt/_src/perturbations.py b/jaxopt/_src/perturbations.py
index 021baee..157b506 100644
--- a/jaxopt/_src/perturbations.py
+++ b/jaxopt/_src/perturbations.py
@@ -276,7 +276,7 @@ def make_perturbed_fun(fun: Callable[[jax.Array], float],
     nabla_z_flat = -jax.vmap(jax.grad(noise.log_prob))(samples.reshape([-1]))
     tangent_flat = 1.0 / (num_samples * sigma) * jnp.einsum(
         'nd,ne,e->d',
-        jnp.reshape(output_pert - output, (num_samples, -1)),
+        jnp.reshape(output_pert - jnp.expand_dims(output, -1), (num_samples, -1)),
         jnp.reshape(nabla_z_flat, (num_samples, -1)),
         jnp.reshape(tangent, (-1,)))
     tangent_out = jnp.squeeze(jnp.reshape(tangent_flat, output_pert.shape[1:]))
-- 
2.43.0


From c7626d3a8b26f5cf1fd3d8cf3c83f7d4d43cec54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:14 +0000
Subject: [PATCH 32/38] fix: keep unit axes in the tangent of
 make_perturbed_fun

jnp.squeeze also removed axes of the output of size one, so functions with such
outputs could not be differentiated.
---
 jaxopt/_src/perturbations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jaxopt/_src/perturbations.py b/jaxopt/_src/perturbations.py
index 157b506..c6f425f 100644
--- a/jaxopt/_src/perturbations.py
+++ b/jaxopt/_src/perturbations.py
@@ -264,7 +264,7 @@ def make_perturbed_fun(fun: Callable[[jax.Array], float],
         jnp.reshape(output_pert, (num_samples, -1)),
         jnp.reshape(nabla_z_flat, (num_samples, -1)),
         jnp.reshape(tangent, (-1,)))
-    tangent_out = jnp.squeeze(jnp.reshape(tangent_flat, output_pert.shape[1:]))
+    tangent_out = jnp.reshape(tangent_flat, output_pert.shape[1:-1])
     return tangent_out
 
   def pert_jvp_control_variate(tangent, _, inputs, rng):
@@ -279,7 +279,7 @@ def make_perturbed_fun(fun: Callable[[jax.Array], float],
         jnp.reshape(output_pert - jnp.expand_dims(output, -1), (num_samples, -1)),
         jnp.reshape(nabla_z_flat, (num_samples, -1)),
         jnp.reshape(tangent, (-1,)))
-    tangent_out = jnp.squeeze(jnp.reshape(tangent_flat, output_pert.shape[1:]))
+    tangent_out = jnp.reshape(tangent_flat, output_pert.shape[1:-1])
     return tangent_out
 
   if control_variate:
-- 
2.43.0


From daf0bbaf43f65bd5801cfc139bdbcff886c2148f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:20 +0000
Subject: [PATCH 33/38] fix: isotonic_l2_pav truncated the solution of integer
 inputs

---
 jaxopt/_src/isotonic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jaxopt/_src/isotonic.py b/jaxopt/_src/isotonic.py
index a0c9c23..c6401e3 100644
--- a/jaxopt/_src/isotonic.py
+++ b/jaxopt/_src/isotonic.py
@@ -119,7 +119,8 @@ def isotonic_l2_pav(y, y_min=-jnp.inf, y_max=jnp.inf, increasing=True):
   Returns:
     The solution, an array of the same size as y.
   """
-  sign = -1 if increasing else 1
+  # A float, so that integer inputs are promoted: block averages are not integers.
+  sign = -1.0 if increasing else 1.0
   sol = _isotonic_l2_pav(y * sign) * sign
   sol = jnp.clip(sol, y_min, y_max)
   return sol
-- 
2.43.0


From b4f411bbef43f441a6602feeac36a53a49a0bfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:41 +0000
Subject: [PATCH 34/38] fix: Hager-Zhang line search returned the initial step
 size when done at initialization

The parameters, value and gradient were those of the accepted step, the
returned step size was the caller's guess.
---
 jaxopt/_src/hager_zhang_linesearch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxopt/_src/hager_zhang_linesearch.py b/jaxopt/_src/hager_zhang_linesearch.py
index 6d03cd9..886534a 100644
--- a/jaxopt/_src/hager_zhang_linesearch.py
+++ b/jaxopt/_src/hager_zhang_linesearch.py
@@ -520,7 +520,7 @@ class HagerZhangLineSearch(base.IterativeLineSearch):
 
     value_best_point = jnp.minimum(value_low, value_high)
 
-    new_stepsize = jnp.where(state.done, stepsize, best_point)
+    new_stepsize = best_point
     new_params = tree_add_scalar_mul(params, best_point, descent_direction)
     (new_value, new_aux), new_grad = self._value_and_grad_fun_with_aux(
         new_params, *fun_args, **fun_kwargs
-- 
2.43.0


From b594bf860d70386310c094db6d34f60863f1d73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:36 +0000
Subject: [PATCH 35/38] fix: Hager-Zhang line search reported accepted steps as
 failures

A failed attempt to shrink the interval further set the failure flag even when
the step had been accepted, at initialization for instance.
---
 jaxopt/_src/hager_zhang_linesearch.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jaxopt/_src/hager_zhang_linesearch.py b/jaxopt/_src/hager_zhang_linesearch.py
index 886534a..6807f46 100644
--- a/jaxopt/_src/hager_zhang_linesearch.py
+++ b/jaxopt/_src/hager_zhang_linesearch.py
@@ -538,7 +538,9 @@ class HagerZhangLineSearch(base.IterativeLineSearch):
                           approx_wolfe_threshold_value,
                           descent_direction))
     done = state.done | (error <= self.tol)
-    failed = failed | ((state.iter_num + 1 == self.maxiter) & ~done)
+    # An accepted step is no failure, even if an attempt to go further failed (as
+    # does the secant step when both ends of the interval have the same slope).
+    failed = (failed | (state.iter_num + 1 == self.maxiter)) & ~done
 
     new_state = HagerZhangLineSearchState(
         iter_num=state.iter_num + 1,
-- 
2.43.0


From 37f160700b914eca7c2cc9cdd35675685c1e356b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:23 +0000
Subject: [PATCH 36/38] fix: Hager-Zhang line search never ended on objectives
 unbounded below

The bracketing phase expanded the step for ever, infinity included, when the
function was linear along the direction, say.
---
 jaxopt/_src/hager_zhang_linesearch.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jaxopt/_src/hager_zhang_linesearch.py b/jaxopt/_src/hager_zhang_linesearch.py
index 6807f46..54e671a 100644
--- a/jaxopt/_src/hager_zhang_linesearch.py
+++ b/jaxopt/_src/hager_zhang_linesearch.py
@@ -311,6 +311,12 @@ class HagerZhangLineSearch(base.IterativeLineSearch):
       new_num_fun_grad_calls += 1
       num_fun_grad_calls += new_num_fun_grad_calls
 
+      # Terminate on reaching -inf, as above the loop: the function is unbounded
+      # below in this direction and expanding further would never end.
+      unbounded = ~done & jnp.isneginf(new_value_middle)
+      new_high = jnp.where(unbounded, new_middle, new_high)
+      done = done | unbounded
+
       # Terminate on encountering NaNs to avoid an infinite loop.
       failed = failed  | _failed_nan(new_value_middle, new_grad_middle)
       return (done,
-- 
2.43.0


From 963b0e2fd442b7c0171f3c94cb6c4ff7c6f97c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:42 +0000
Subject: [PATCH 37/38] fix: L-BFGS-B Cauchy point left the box along
 coordinates with negligible gradient

---
 jaxopt/_src/lbfgsb.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jaxopt/_src/lbfgsb.py b/jaxopt/_src/lbfgsb.py
index 44f5cf0..a2c6d7f 100644
--- a/jaxopt/_src/lbfgsb.py
+++ b/jaxopt/_src/lbfgsb.py
@@ -115,7 +115,9 @@ def _find_cauchy_point(
   t = jnp.where(
       jnp.abs(grad) < eps, jnp.inf,
       jnp.where(grad < 0., (x - upper) / grad, (x - lower) / grad))
-  d = jnp.where(t < eps, 0., -grad)
+  # Coordinates with a negligible gradient have no breakpoint in t (it could be
+  # passed otherwise), so they must not move along the path.
+  d = jnp.where((t < eps) | (jnp.abs(grad) < eps), 0., -grad)
   x_bound = jnp.where(d > 0., upper, jnp.where(d < 0., lower, x))
 
   # Sort coordinates by the distance from the bounds, divided by the gradient.
-- 
2.43.0


From de8972dd3bb3be4489050d322fc01c603974a9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:35 +0000
Subject: [PATCH 38/38] fix: reverse-mode derivative of projection_l2_ball and
 prox_group_lasso was NaN at the origin

---
 jaxopt/_src/projection.py | 8 +++++---
 jaxopt/_src/prox.py       | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/jaxopt/_src/projection.py b/jaxopt/_src/projection.py
index 4020593..1ccfc36 100644
--- a/jaxopt/_src/projection.py
+++ b/jaxopt/_src/projection.py
@@ -284,9 +284,11 @@ def projection_l2_ball(x: Any, max_value: float = 1.0) -> Any:
   Returns:
     output pytree, with the same structure as ``x``.
   """
-  l2_norm = tree_util.tree_l2_norm(x)
-  factor = max_value / l2_norm
-  return jax.lax.cond(l2_norm <= max_value,
+  squared_norm = tree_util.tree_l2_norm(x, squared=True)
+  inside = jnp.sqrt(squared_norm) <= max_value
+  # The norm is not differentiable at 0, do not differentiate it in the ball.
+  factor = max_value / jnp.sqrt(jnp.where(inside, 1, squared_norm))
+  return jax.lax.cond(inside,
                       lambda _: x,
                       lambda _: tree_util.tree_scalar_mul(factor, x),
                       operand=None)
diff --git a/jaxopt/_src/prox.py b/jaxopt/_src/prox.py
index 65bec15..4958e05 100644
--- a/jaxopt/_src/prox.py
+++ b/jaxopt/_src/prox.py
@@ -160,9 +160,11 @@ def prox_group_lasso(x: Any,
   if l2reg is None:
     l2reg = 1.0
 
-  l2_norm = tree_util.tree_l2_norm(x)
-  factor = 1 - l2reg * scaling / l2_norm
-  factor = jnp.where(factor >= 0, factor, 0)
+  squared_norm = tree_util.tree_l2_norm(x, squared=True)
+  nonzero = jnp.sqrt(squared_norm) > l2reg * scaling
+  # The norm is not differentiable at 0, do not differentiate it there.
+  l2_norm = jnp.sqrt(jnp.where(nonzero, squared_norm, 1))
+  factor = jnp.where(nonzero, 1 - l2reg * scaling / l2_norm, 0)
   return tree_util.tree_scalar_mul(factor, x)
 
 
-- 
2.43.0

