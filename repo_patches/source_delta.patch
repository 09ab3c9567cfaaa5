From c78c090d649649b22b82679357ed8833f95c377e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:42 +0000
Subject: [PATCH 01/28] fix: read checkpoint metadata before preparing compute
 kernels

prepare_compute_kernels() hands the current time to the mesh adaptor,
which uses it to discard adaptation time points that lie in the past. On
resume t was still zero at that point and past time points fired again.
---
 source/time_loop.template.h | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/source/time_loop.template.h b/source/time_loop.template.h
index 0e3d6c4..b366afb 100644
--- a/source/time_loop.template.h
+++ b/source/time_loop.template.h
@@ -263,14 +263,21 @@ namespace ryujin
       if (resume_) {
         print_info("resume: reading mesh and loading state vector");
 
-        read_checkpoint(
-            state_vector, base_name_, t, timer_cycle, prepare_compute_kernels);
+        const auto reset_and_prepare_compute_kernels = [&]() {
+          if (resume_at_time_zero_) {
+            /* Reset the current time t and the output cycle count to zero: */
+            t = 0.;
+            timer_cycle = 0;
+          }
 
-        if (resume_at_time_zero_) {
-          /* Reset the current time t and the output cycle count to zero: */
-          t = 0.;
-          timer_cycle = 0;
-        }
+          prepare_compute_kernels();
+        };
+
+        read_checkpoint(state_vector,
+                        base_name_,
+                        t,
+                        timer_cycle,
+                        reset_and_prepare_compute_kernels);
 
       } else {
         print_info("creating mesh and interpolating initial values");
@@ -467,10 +474,9 @@ namespace ryujin
     }
 #endif
 
-    prepare_compute_kernels();
-
     /*
-     * Read in and broadcast metadata:
+     * Read in and broadcast metadata. We have to do this prior to preparing
+     * compute kernels because the latter needs the current timepoint:
      */
 
     std::string name = base_name + "-checkpoint";
@@ -493,6 +499,8 @@ namespace ryujin
     ierr = MPI_Bcast(&output_cycle, 1, MPI_UNSIGNED, 0, mpi_communicator_);
     AssertThrowMPI(ierr);
 
+    prepare_compute_kernels();
+
     /*
      * Now read in the state vector:
      */
-- 
2.43.0


From b9dd6056b6d6359dda9fd895aee2281e136dbd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:59 +0000
Subject: [PATCH 02/28] fix: only write the computed solution to checkpoints

With error computation and checkpointing enabled the output of the
analytic solution overwrote the checkpoint that had just been written
with the interpolated analytic state.
---
 source/time_loop.h          |  3 ++-
 source/time_loop.template.h | 18 ++++++++++++++----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/source/time_loop.h b/source/time_loop.h
index 6fa8743..7e76f33 100644
--- a/source/time_loop.h
+++ b/source/time_loop.h
@@ -122,7 +122,8 @@ namespace ryujin
     void output(StateVector &state_vector,
                 const std::string &name,
                 const Number t,
-                const unsigned int cycle);
+                const unsigned int cycle,
+                const bool allow_checkpointing);
 
     void print_parameters(std::ostream &stream);
     void print_mpi_partition(std::ostream &stream);
diff --git a/source/time_loop.template.h b/source/time_loop.template.h
index b366afb..c645db1 100644
--- a/source/time_loop.template.h
+++ b/source/time_loop.template.h
@@ -321,7 +321,11 @@ namespace ryujin
       /* Perform various tasks whenever we reach a timer tick: */
 
       if (t >= timer_cycle * timer_granularity_) {
-        output(state_vector, base_name_ + "-solution", t, timer_cycle);
+        output(state_vector,
+               base_name_ + "-solution",
+               t,
+               timer_cycle,
+               /*allow checkpointing*/ true);
 
         if (enable_compute_error_) {
           StateVector analytic;
@@ -337,7 +341,11 @@ namespace ryujin
             std::get<0>(analytic) =
                 initial_values_.interpolate_hyperbolic_vector(t);
           }
-          output(analytic, base_name_ + "-analytic_solution", t, timer_cycle);
+          output(analytic,
+                 base_name_ + "-analytic_solution",
+                 t,
+                 timer_cycle,
+                 /*allow checkpointing*/ false);
         }
 
         if (enable_compute_quantities_ &&
@@ -845,7 +853,8 @@ namespace ryujin
   void TimeLoop<Description, dim, Number>::output(StateVector &state_vector,
                                                   const std::string &name,
                                                   const Number t,
-                                                  const unsigned int cycle)
+                                                  const unsigned int cycle,
+                                                  const bool allow_checkpointing)
   {
 #ifdef DEBUG_OUTPUT
     std::cout << "TimeLoop<dim, Number>::output(t = " << t << ")" << std::endl;
@@ -857,7 +866,8 @@ namespace ryujin
         (cycle % timer_output_levelsets_multiplier_ == 0) &&
         enable_output_levelsets_;
     const bool do_checkpointing =
-        (cycle % timer_checkpoint_multiplier_ == 0) && enable_checkpointing_;
+        allow_checkpointing && (cycle % timer_checkpoint_multiplier_ == 0) &&
+        enable_checkpointing_;
 
     /* There is nothing to do: */
     if (!(do_full_output || do_levelsets || do_checkpointing))
-- 
2.43.0


From ad18b93866482b774c9567c3bf16946d2ff43a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:10 +0000
Subject: [PATCH 03/28] fix: truncate time series files of all manifolds on
 first writeout

The append flag was only unset for the first space averaged manifold. All
other manifolds appended to a possibly existing file from an earlier run
and never received a header.
---
 source/quantities.template.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/source/quantities.template.h b/source/quantities.template.h
index 05d482c..6d30ee7 100644
--- a/source/quantities.template.h
+++ b/source/quantities.template.h
@@ -583,6 +583,14 @@ namespace ryujin
      * space_averaged values to the corresponding log files:
      */
 
+    /*
+     * Time series files are created on first writeout, and appended to
+     * afterwards. This applies to all manifolds:
+     */
+    const bool append = time_series_cycle_.has_value();
+    if (!append)
+      time_series_cycle_ = cycle;
+
     const auto write_out = [&](const auto &point_maps,
                                const auto &manifolds,
                                auto &statistics,
@@ -649,12 +657,6 @@ namespace ryujin
          */
 
         if (options.find("space_averaged") != std::string::npos) {
-          bool append = true;
-          if (!time_series_cycle_.has_value()) {
-            time_series_cycle_ = cycle;
-            append = false;
-          }
-
           const auto file_name =
               base_name_ + "-" + name + "-R" +
               Utilities::to_string(time_series_cycle_.value(), 4) +
-- 
2.43.0


From 56af5a26163b03ee1ccda013f7e1e9db24b9e24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:10 +0000
Subject: [PATCH 04/28] fix: combine the bounds on the kinetic energy in
 shallow water limiter

---
 source/shallow_water/limiter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/shallow_water/limiter.h b/source/shallow_water/limiter.h
index 9c5b5f7..3952600 100644
--- a/source/shallow_water/limiter.h
+++ b/source/shallow_water/limiter.h
@@ -392,7 +392,7 @@ namespace ryujin
       return {std::min(h_min_l, h_min_r),
               std::max(h_max_l, h_max_r),
               std::min(h_small_l, h_small_r),
-              std::max(k_max_l, h_max_r),
+              std::max(k_max_l, k_max_r),
               std::max(v2_max_l, v2_max_r)};
     }
 
-- 
2.43.0


From e216d6b65af71bbc482663cb05ede5f08e957b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:32 +0000
Subject: [PATCH 05/28] fix: return the upper bound if shallow water limiter
 skips kinetic bounds

With neither kinetic energy nor square velocity limiting enabled the
limiter returned t_min, discarding the bound computed for the water depth
and reducing the scheme to its low-order update.
---
 source/shallow_water/limiter.template.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/shallow_water/limiter.template.h b/source/shallow_water/limiter.template.h
index 4932b5b..c890584 100644
--- a/source/shallow_water/limiter.template.h
+++ b/source/shallow_water/limiter.template.h
@@ -143,7 +143,7 @@ namespace ryujin
        */
       if (RYUJIN_UNLIKELY(!parameters.limit_on_square_velocity() &&
                           !parameters.limit_on_kinetic_energy()))
-        return {t_l, success};
+        return {t_r, success};
 
       /*
        * Limit the (negative) kinetic energy:
-- 
2.43.0


From 6e4580dbe34071a2b36f3c242c7dd9ba210c5213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:05 +0000
Subject: [PATCH 06/28] fix: use the correct derivative in the square velocity
 limiter

The derivative of psi(t) = (h_U + t h_P)^2 v2_max - |q_U + t q_P|^2 lacked
a factor of two in the first term and had the wrong sign in front of
|q_P|^2 t. The quadratic Newton step consequently overshot the root.
---
 source/shallow_water/limiter.template.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/shallow_water/limiter.template.h b/source/shallow_water/limiter.template.h
index c890584..6ba49b1 100644
--- a/source/shallow_water/limiter.template.h
+++ b/source/shallow_water/limiter.template.h
@@ -379,7 +379,7 @@ namespace ryujin
            *            - (|q_U|^2 + 2(q_U * q_P) t + |q_P|^2 t^2)
            *
            * d_psi(t) = 2 (h_U + t * h_P) * h_P v2_max
-           *            - 2 (q_U * q_P) - |q_P|^2 t
+           *            - 2 (q_U * q_P) - 2 |q_P|^2 t
            *
            * We can compute the root of this function efficiently by using our
            * standard quadratic_newton_step() function that will use the points
@@ -394,11 +394,11 @@ namespace ryujin
           const auto &q_P = view.momentum(P);
 
           const auto dpsi_l =
-              (h_U + t_l * h_P) * h_P * v2_max -
-              ScalarNumber(2.) * ((q_U * q_P) - q_P * q_P * t_l);
+              ScalarNumber(2.) * ((h_U + t_l * h_P) * h_P * v2_max -
+                                  (q_U * q_P) - q_P * q_P * t_l);
           const auto dpsi_r =
-              (h_U + t_r * h_P) * h_P * v2_max -
-              ScalarNumber(2.) * ((q_U * q_P) - q_P * q_P * t_r);
+              ScalarNumber(2.) * ((h_U + t_r * h_P) * h_P * v2_max -
+                                  (q_U * q_P) - q_P * q_P * t_r);
 
           quadratic_newton_step(
               t_l, t_r, psi_l, psi_r, dpsi_l, dpsi_r, Number(-1.));
-- 
2.43.0


From 9fc060071a58907735237a52e3112fbbac33f79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:54 +0000
Subject: [PATCH 07/28] fix: do not miss the output at an enforced final time
 due to roundoff

The break condition relaxes the final time by a few ulp if the final time
is enforced. The condition for reaching a timer tick did not, so that the
output at the final time was skipped if the rounded product of timer cycle
and timer granularity exceeded the reached time.
---
 source/time_loop.template.h | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/source/time_loop.template.h b/source/time_loop.template.h
index c645db1..e914a61 100644
--- a/source/time_loop.template.h
+++ b/source/time_loop.template.h
@@ -297,6 +297,15 @@ namespace ryujin
                                        ? std::numeric_limits<Number>::max()
                                        : std::numeric_limits<Number>::lowest());
 
+    /*
+     * Make sure that we do not loop forever, or miss the output at the final
+     * time due to roundoff errors when enforce_t_final_ is set to true.
+     */
+    const auto relax =
+        enforce_t_final_
+            ? Number(1. - 10. * std::numeric_limits<Number>::epsilon())
+            : Number(1.);
+
     /*
      * The honorable main loop:
      */
@@ -320,7 +329,7 @@ namespace ryujin
 
       /* Perform various tasks whenever we reach a timer tick: */
 
-      if (t >= timer_cycle * timer_granularity_) {
+      if (t >= relax * timer_cycle * timer_granularity_) {
         output(state_vector,
                base_name_ + "-solution",
                t,
@@ -360,15 +369,6 @@ namespace ryujin
 
       /* Break if we have reached the final time. */
 
-      /*
-       * Make sure that we do not loop forever due to roundoff errors when
-       * enforce_t_final_ is set to true.
-       */
-      const auto relax =
-          enforce_t_final_
-              ? Number(1. - 10. * std::numeric_limits<Number>::epsilon())
-              : Number(1.);
-
       if (t >= relax * t_final_)
         break;
 
@@ -403,7 +403,8 @@ namespace ryujin
 
       /* Print and record cycle statistics: */
       if (terminal_update_interval_ != Number(0.)) {
-        const bool write_to_log_file = (t >= timer_cycle * timer_granularity_);
+        const bool write_to_log_file =
+            (t >= relax * timer_cycle * timer_granularity_);
 
         const auto wall_time = computing_timer_["time loop"].wall_time();
         int update_terminal =
-- 
2.43.0


From 3ee753ccc3e35b25cce9dd88187bbbcf826cc272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:18 +0000
Subject: [PATCH 08/28] fix: report a step size that is not a number

The minimum over all rows silently dropped every NaN, so that a state
that is not a number resulted in a huge step size (the initial value of
the reduction) instead of the intended exception.
---
 source/hyperbolic_module.template.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/hyperbolic_module.template.h b/source/hyperbolic_module.template.h
index a485e03..b33f3fa 100644
--- a/source/hyperbolic_module.template.h
+++ b/source/hyperbolic_module.template.h
@@ -550,7 +550,9 @@ namespace ryujin
 
         const Number mass = lumped_mass_matrix.local_element(i);
         const Number tau = cfl_ * mass / (Number(-2.) * d_sum);
-        local_tau_max = std::min(local_tau_max, tau);
+        /* A comparison silently drops NaN. Record it as an invalid step size: */
+        local_tau_max =
+            std::isnan(tau) ? Number(0.) : std::min(local_tau_max, tau);
       }
 
       /* Synchronize tau max over all threads: */
-- 
2.43.0


From b9821ca1dbba092089f63f90f1d919492c131c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:49 +0000
Subject: [PATCH 09/28] fix: bound the wave speed of stiffened gases (the
 reference pressure was subtracted twice)

---
 source/euler_aeos/riemann_solver.template.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/source/euler_aeos/riemann_solver.template.h b/source/euler_aeos/riemann_solver.template.h
index dcc446f..553ba80 100644
--- a/source/euler_aeos/riemann_solver.template.h
+++ b/source/euler_aeos/riemann_solver.template.h
@@ -459,14 +459,16 @@ namespace ryujin
                                         ((gamma_i + Number(1.)) * p_max +
                                          (gamma_i - Number(1.)) * (p_i + pinf));
 
-      const Number value_i = (p_max - p_i) / std::sqrt(radicand_inverse_i);
+      const Number value_i =
+          (p_max - (p_i + pinf)) / std::sqrt(radicand_inverse_i);
 
       const Number radicand_jnverse_j = ScalarNumber(0.5) * rho_j /
                                         (Number(1.) - interpolation_b * rho_j) *
                                         ((gamma_j + Number(1.)) * p_max +
                                          (gamma_j - Number(1.)) * (p_j + pinf));
 
-      const Number value_j = (p_max - p_j) / std::sqrt(radicand_jnverse_j);
+      const Number value_j =
+          (p_max - (p_j + pinf)) / std::sqrt(radicand_jnverse_j);
 
       return value_i + value_j + u_j - u_i;
     }
@@ -573,7 +575,6 @@ namespace ryujin
         const primitive_type &riemann_data_j) const
     {
       const auto view = hyperbolic_system.view<dim, Number>();
-      const auto pinf = view.eos_interpolation_pinfty();
 
       const auto &[rho_i, u_i, p_i, gamma_i, a_i] = riemann_data_i;
       const auto &[rho_j, u_j, p_j, gamma_j, a_j] = riemann_data_j;
@@ -591,7 +592,7 @@ namespace ryujin
       std::cout << "a_right: " << a_j << std::endl;
 #endif
 
-      const Number p_max = std::max(p_i, p_j) + pinf;
+      const Number p_max = std::max(p_i, p_j);
       const Number phi_p_max = phi_of_p_max(riemann_data_i, riemann_data_j);
 
       if (!view.compute_strict_bounds()) {
-- 
2.43.0


From e39a852faa6ce4267026bbcaac26c420c7c31dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:39 +0000
Subject: [PATCH 10/28] fix: report violated bounds if the density admits no
 update

---
 source/euler/limiter.template.h         | 2 +-
 source/euler_aeos/limiter.template.h    | 2 +-
 source/shallow_water/limiter.template.h | 5 +++--
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/source/euler/limiter.template.h b/source/euler/limiter.template.h
index 7f3f50c..03bd41b 100644
--- a/source/euler/limiter.template.h
+++ b/source/euler/limiter.template.h
@@ -204,7 +204,7 @@ namespace ryujin
            * U_r = U + t_r * P pushed us back into bounds. We thus skip
            * this shortcut if `EXPENSIVE_BOUNDS_CHECK` is set.
            */
-          if (t_l == t_r) {
+          if (t_l == t_r && std::min(Number(0.), psi_r) == Number(0.)) {
 #ifdef DEBUG_OUTPUT_LIMITER
             std::cout << "shortcut: t_l == t_r" << std::endl;
             std::cout << "psi_l:       " << psi_l << std::endl;
diff --git a/source/euler_aeos/limiter.template.h b/source/euler_aeos/limiter.template.h
index a5f302c..19d99af 100644
--- a/source/euler_aeos/limiter.template.h
+++ b/source/euler_aeos/limiter.template.h
@@ -213,7 +213,7 @@ namespace ryujin
            * U_r = U + t_r * P pushed us back into bounds. We thus skip
            * this shortcut if `EXPENSIVE_BOUNDS_CHECK` is set.
            */
-          if (t_l == t_r) {
+          if (t_l == t_r && std::min(Number(0.), psi_r) == Number(0.)) {
 #ifdef DEBUG_OUTPUT_LIMITER
             std::cout << "shortcut: t_l == t_r" << std::endl;
             std::cout << "psi_l:       " << psi_l << std::endl;
diff --git a/source/shallow_water/limiter.template.h b/source/shallow_water/limiter.template.h
index 6ba49b1..f389e57 100644
--- a/source/shallow_water/limiter.template.h
+++ b/source/shallow_water/limiter.template.h
@@ -177,7 +177,8 @@ namespace ryujin
             dealii::SIMDComparison::greater_than>(psi_r, Number(0.), t_r, t_l);
 
         /* If we have set t_l = t_r everywhere we can return: */
-        if (!parameters.limit_on_square_velocity() && t_l == t_r)
+        if (!parameters.limit_on_square_velocity() && t_l == t_r &&
+            std::min(Number(0.), psi_r) == Number(0.))
           return {t_l, success};
 
 #ifdef DEBUG_OUTPUT_LIMITER
@@ -325,7 +326,7 @@ namespace ryujin
             dealii::SIMDComparison::greater_than>(psi_r, Number(0.), t_r, t_l);
 
         /* If we have set t_l = t_r everywhere we can return: */
-        if (t_l == t_r)
+        if (t_l == t_r && std::min(Number(0.), psi_r) == Number(0.))
           return {t_l, success};
 
 #ifdef DEBUG_OUTPUT_LIMITER
-- 
2.43.0


From 34e25cd17d49f9b691036f4b5fd52f7f0cd6370a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:03 +0000
Subject: [PATCH 11/28] fix: avoid catastrophic cancellation in the quadratic
 Newton step

---
 source/newton.h | 60 ++++++++++++++++++++++++++++++-------------------
 1 file changed, 37 insertions(+), 23 deletions(-)

diff --git a/source/newton.h b/source/newton.h
index f85fb8c..d685325 100644
--- a/source/newton.h
+++ b/source/newton.h
@@ -60,29 +60,43 @@ namespace ryujin
 
     /* Update left and right point: */
 
-    const auto discriminant_1 =
-        std::abs(dphi_p_1 * dphi_p_1 - ScalarNumber(4.) * phi_p_1 * dd_112);
-    const auto discriminant_2 =
-        std::abs(dphi_p_2 * dphi_p_2 - ScalarNumber(4.) * phi_p_2 * dd_122);
-
-    const auto denominator_1 = dphi_p_1 + sign * std::sqrt(discriminant_1);
-    const auto denominator_2 = dphi_p_2 + sign * std::sqrt(discriminant_2);
-
-    /* Make sure we do not produce NaNs: */
-
-    auto t_1 =
-        p_1 - dealii::compare_and_apply_mask<dealii::SIMDComparison::less_than>(
-                  std::abs(denominator_1),
-                  Number(eps),
-                  Number(0.),
-                  ScalarNumber(2.) * phi_p_1 / denominator_1);
-
-    auto t_2 =
-        p_2 - dealii::compare_and_apply_mask<dealii::SIMDComparison::less_than>(
-                  std::abs(denominator_2),
-                  Number(eps),
-                  Number(0.),
-                  ScalarNumber(2.) * phi_p_2 / denominator_2);
+    const auto step = [&](const Number &phi,
+                          const Number &dphi,
+                          const Number &dd) {
+      const auto discriminant = dphi * dphi - ScalarNumber(4.) * phi * dd;
+      const auto root = sign * std::sqrt(std::abs(discriminant));
+      const auto denominator = dphi + root;
+
+      /* Make sure we do not produce NaNs: */
+      const auto result =
+          dealii::compare_and_apply_mask<dealii::SIMDComparison::less_than>(
+              std::abs(denominator),
+              Number(eps),
+              Number(0.),
+              ScalarNumber(2.) * phi / denominator);
+
+      /*
+       * If dphi and root (almost) cancel each other then the denominator is
+       * dominated by roundoff. In this case evaluate the very same root of
+       * the quadratic polynomial with dphi - root instead:
+       */
+      const auto stable =
+          dealii::compare_and_apply_mask<dealii::SIMDComparison::equal>(
+              dd, Number(0.), result, ScalarNumber(0.5) * (dphi - root) / dd);
+
+      const auto cancels =
+          dealii::compare_and_apply_mask<dealii::SIMDComparison::less_than>(
+              std::abs(denominator),
+              std::abs(dphi) * std::sqrt(eps),
+              stable,
+              result);
+
+      return dealii::compare_and_apply_mask<dealii::SIMDComparison::less_than>(
+          discriminant, Number(0.), result, cancels);
+    };
+
+    auto t_1 = p_1 - step(phi_p_1, dphi_p_1, dd_112);
+    auto t_2 = p_2 - step(phi_p_2, dphi_p_2, dd_122);
 
     /* Enforce bounds: */
 
-- 
2.43.0


From 49ab8ae92fe2e943a6df47a50d2426233b4b54dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:38 +0000
Subject: [PATCH 12/28] fix: update the heat capacity of the equations of state
 on parameter read in

---
 .../euler_aeos/equation_of_state_noble_abel_stiffened_gas.h | 6 +++++-
 source/euler_aeos/equation_of_state_polytropic_gas.h        | 4 ++++
 source/euler_aeos/equation_of_state_van_der_waals.h         | 6 +++++-
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/source/euler_aeos/equation_of_state_noble_abel_stiffened_gas.h b/source/euler_aeos/equation_of_state_noble_abel_stiffened_gas.h
index 56dbd99..6e4291c 100644
--- a/source/euler_aeos/equation_of_state_noble_abel_stiffened_gas.h
+++ b/source/euler_aeos/equation_of_state_noble_abel_stiffened_gas.h
@@ -54,8 +54,12 @@ namespace ryujin
         this->add_parameter(
             "reference pressure", pinf_, "The reference pressure p infinity");
 
-        /* Update the EOS interpolation parameters on parameter read in: */
+        /*
+         * Update c_v and the EOS interpolation parameters on parameter read
+         * in:
+         */
         ParameterAcceptor::parse_parameters_call_back.connect([this] {
+          cv_ = R_ / (gamma_ - 1.);
           this->interpolation_b_ = b_;
           this->interpolation_pinfty_ = pinf_;
           this->interpolation_q_ = q_;
diff --git a/source/euler_aeos/equation_of_state_polytropic_gas.h b/source/euler_aeos/equation_of_state_polytropic_gas.h
index b29d599..2a29323 100644
--- a/source/euler_aeos/equation_of_state_polytropic_gas.h
+++ b/source/euler_aeos/equation_of_state_polytropic_gas.h
@@ -40,6 +40,10 @@ namespace ryujin
             "gas constant R", R_, "The specific gas constant R");
 
         cv_ = R_ / (gamma_ - 1.);
+
+        /* Update c_v on parameter read in: */
+        ParameterAcceptor::parse_parameters_call_back.connect(
+            [this] { cv_ = R_ / (gamma_ - 1.); });
       }
 
       /**
diff --git a/source/euler_aeos/equation_of_state_van_der_waals.h b/source/euler_aeos/equation_of_state_van_der_waals.h
index 9d7fb28..f8e216e 100644
--- a/source/euler_aeos/equation_of_state_van_der_waals.h
+++ b/source/euler_aeos/equation_of_state_van_der_waals.h
@@ -48,8 +48,12 @@ namespace ryujin
 
         cv_ = R_ / (gamma_ - 1.);
 
-        /* Update the EOS interpolation parameters on parameter read in: */
+        /*
+         * Update c_v and the EOS interpolation parameters on parameter read
+         * in:
+         */
         ParameterAcceptor::parse_parameters_call_back.connect([this] {
+          cv_ = R_ / (gamma_ - 1.);
           this->interpolation_b_ = b_;
           /* Note that this EOS allows for negative pressures. */
           if (b_ > 0.)
-- 
2.43.0


From 79bd3a062916f568ab5b062ca6e1be39e76050b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:38 +0000
Subject: [PATCH 13/28] fix: account for the energy offset of the JWL equation
 of state throughout

---
 source/euler_aeos/equation_of_state_jones_wilkins_lee.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/euler_aeos/equation_of_state_jones_wilkins_lee.h b/source/euler_aeos/equation_of_state_jones_wilkins_lee.h
index b4c29f8..fc628f8 100644
--- a/source/euler_aeos/equation_of_state_jones_wilkins_lee.h
+++ b/source/euler_aeos/equation_of_state_jones_wilkins_lee.h
@@ -83,6 +83,7 @@ namespace ryujin
        *   \omega \rho e = p
        *   - A(1 - \omega / R_1 \rho / \rho_0) e^{(-R_1 \rho_0 / \rho)}
        *   - B(1 - \omega / R_2 \rho/ \rho_0) e^{(-R_2 \rho_0 / \rho)}
+       *   - \omega \rho q_0
        * \f}
        */
       double specific_internal_energy(double rho, double p) const final
@@ -94,7 +95,7 @@ namespace ryujin
         const auto second_term =
             capB * (1. - omega / R2 * ratio) * std::exp(-R2 * 1. / ratio);
 
-        return (p - first_term - second_term) / (rho * omega);
+        return (p - first_term - second_term) / (rho * omega) - q_0;
       }
 
       /**
@@ -132,7 +133,7 @@ namespace ryujin
         const auto second_term =
             capB / rho * factor2 * std::exp(-1. / t2 / omega);
 
-        const auto third_term = omega * (omega + 1.) * e;
+        const auto third_term = omega * (omega + 1.) * (e + q_0);
 
         return std::sqrt(first_term + second_term + third_term);
       }
-- 
2.43.0


From 03483374dd4ca8789d0498437694fa455855eadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:07 +0000
Subject: [PATCH 14/28] fix: correct the exponentials in the JWL speed of sound

---
 source/euler_aeos/equation_of_state_jones_wilkins_lee.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/euler_aeos/equation_of_state_jones_wilkins_lee.h b/source/euler_aeos/equation_of_state_jones_wilkins_lee.h
index fc628f8..74e5449 100644
--- a/source/euler_aeos/equation_of_state_jones_wilkins_lee.h
+++ b/source/euler_aeos/equation_of_state_jones_wilkins_lee.h
@@ -126,12 +126,12 @@ namespace ryujin
         const auto t1 = omega * rho / (R1 * rho_0);
         const auto factor1 = omega * (1. - t1) * (1. + 1. / t1) - t1;
         const auto first_term =
-            capA / rho * factor1 * std::exp(-1. / t1 / omega);
+            capA / rho * factor1 * std::exp(-omega / t1);
 
         const auto t2 = omega * rho / (R2 * rho_0);
         const auto factor2 = omega * (1. - t2) * (1. + 1. / t2) - t2;
         const auto second_term =
-            capB / rho * factor2 * std::exp(-1. / t2 / omega);
+            capB / rho * factor2 * std::exp(-omega / t2);
 
         const auto third_term = omega * (omega + 1.) * (e + q_0);
 
-- 
2.43.0


From cfb3f1844ba0132c0a3b9f48685e3be1a0d63e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:51 +0000
Subject: [PATCH 15/28] fix: never replace the backup of a checkpoint by an
 incomplete one

---
 source/time_loop.template.h | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/source/time_loop.template.h b/source/time_loop.template.h
index e914a61..91d351f 100644
--- a/source/time_loop.template.h
+++ b/source/time_loop.template.h
@@ -597,7 +597,13 @@ namespace ryujin
 
     std::string name = base_name + "-checkpoint";
 
-    if (mpi_rank_ == 0) {
+    /*
+     * Rotate out the previous checkpoint. The metadata file is written last,
+     * a checkpoint without it is incomplete (the program was interrupted
+     * while writing it) and must not replace a complete backup:
+     */
+
+    if (mpi_rank_ == 0 && std::filesystem::exists(name + ".metadata")) {
       for (const std::string suffix :
            {".mesh", ".mesh_fixed.data", ".mesh.info", ".metadata"})
         if (std::filesystem::exists(name + suffix))
@@ -613,14 +619,18 @@ namespace ryujin
 #endif
 
     /*
-     * Now, write out metadata on rank 0:
+     * Now, write out metadata on rank 0. Its presence marks the checkpoint
+     * as complete, therefore it has to show up with its full content:
      */
 
     if (mpi_rank_ == 0) {
       std::string meta = name + ".metadata";
-      std::ofstream file(meta, std::ios::binary | std::ios::trunc);
-      boost::archive::binary_oarchive oa(file);
-      oa << t << output_cycle;
+      {
+        std::ofstream file(meta + ".tmp", std::ios::binary | std::ios::trunc);
+        boost::archive::binary_oarchive oa(file);
+        oa << t << output_cycle;
+      }
+      std::filesystem::rename(meta + ".tmp", meta);
     }
 
     const int ierr = MPI_Barrier(mpi_communicator_);
-- 
2.43.0


From d0b0d9aa740b18e3e9fba8aea4e229389c733f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:39 +0000
Subject: [PATCH 16/28] fix: impose periodic constraints only between faces of
 the same refinement level

---
 source/offline_data.template.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/offline_data.template.h b/source/offline_data.template.h
index 72d5cbc..b6700bc 100644
--- a/source/offline_data.template.h
+++ b/source/offline_data.template.h
@@ -94,6 +94,14 @@ namespace ryujin
     for (const auto &[left, value] : periodic_faces) {
       const auto &[right, orientation] = value;
 
+      /*
+       * The map also contains pairs of cells on different refinement
+       * levels. The constraints between a refined and a coarse face are
+       * set up by make_periodicity_constraints() for their common level.
+       */
+      if (left.first->level() != right.first->level())
+        continue;
+
       typename DoFHandler<dim>::cell_iterator dof_cell_left(
           &left.first->get_triangulation(),
           left.first->level(),
-- 
2.43.0


From b013dcdc12e19880038c2b38a1dd184fb10c5274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:39 +0000
Subject: [PATCH 17/28] fix: discard the data exchange pattern of the previous
 mesh on reinit

---
 source/sparse_matrix_simd.template.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/sparse_matrix_simd.template.h b/source/sparse_matrix_simd.template.h
index 2894113..6a8e05e 100644
--- a/source/sparse_matrix_simd.template.h
+++ b/source/sparse_matrix_simd.template.h
@@ -149,6 +149,10 @@ namespace ryujin
 
     /* Compute the data exchange pattern: */
 
+    receive_targets.clear();
+    entries_to_be_sent.clear();
+    send_targets.clear();
+
     if (sparsity.n_rows() > n_locally_owned_dofs) {
 
       /*
-- 
2.43.0


From 9fdc4d193bdca291de3676deabee97ee7d17ee43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:44 +0000
Subject: [PATCH 18/28] fix: apply the affine constraints before writing the
 state to a checkpoint

---
 source/time_loop.template.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/time_loop.template.h b/source/time_loop.template.h
index 91d351f..f343be5 100644
--- a/source/time_loop.template.h
+++ b/source/time_loop.template.h
@@ -573,6 +573,7 @@ namespace ryujin
     const auto &triangulation = discretization_.triangulation();
     const auto &dof_handler = offline_data_.dof_handler();
     const auto &scalar_partitioner = offline_data_.scalar_partitioner();
+    const auto &affine_constraints = offline_data_.affine_constraints();
     auto &U = std::get<0>(state_vector);
 
     using ScalarVector = typename Vectors::ScalarVector<Number>;
@@ -581,6 +582,9 @@ namespace ryujin
     for (auto &it : states) {
       it.reinit(scalar_partitioner);
       U.extract_component(it, d++);
+      /* The state vector stores no values for constrained degrees of freedom: */
+      affine_constraints.distribute(it);
+      it.update_ghost_values();
     }
 
     /* Create SolutionTransfer object, attach state vector and write out: */
-- 
2.43.0


From dee62d9f5b3e74bf7f12f8f188ca82ebe04c4bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:14 +0000
Subject: [PATCH 19/28] fix: keep the bounds of neighbors unextended while
 extending bounds over the stencil

With a discontinuous ansatz, Step 5 of the hyperbolic update replaced the
bounds of a row by their extension over the stencil in place while other
threads, rows and MPI ranks were still reading them. The result depended
on the order of rows, and thus on the number of threads and ranks. Store
the extended bounds in a separate vector.
---
 source/hyperbolic_module.h          |  2 ++
 source/hyperbolic_module.template.h | 12 ++++++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/source/hyperbolic_module.h b/source/hyperbolic_module.h
index f8acc70..95d2a74 100644
--- a/source/hyperbolic_module.h
+++ b/source/hyperbolic_module.h
@@ -322,6 +322,8 @@ namespace ryujin
     static constexpr auto n_bounds =
         Description::template Limiter<dim, Number>::n_bounds;
     mutable Vectors::MultiComponentVector<Number, n_bounds> bounds_;
+    /* bounds extended over the stencil, discontinuous ansatz only: */
+    mutable Vectors::MultiComponentVector<Number, n_bounds> extended_bounds_;
 
     using HyperbolicVector =
         Vectors::MultiComponentVector<Number, problem_dimension>;
diff --git a/source/hyperbolic_module.template.h b/source/hyperbolic_module.template.h
index b33f3fa..06547bc 100644
--- a/source/hyperbolic_module.template.h
+++ b/source/hyperbolic_module.template.h
@@ -66,6 +66,8 @@ namespace ryujin
     const auto &scalar_partitioner = offline_data_->scalar_partitioner();
     alpha_.reinit(scalar_partitioner);
     bounds_.reinit_with_scalar_partitioner(scalar_partitioner);
+    if (offline_data_->discretization().have_discontinuous_ansatz())
+      extended_bounds_.reinit_with_scalar_partitioner(scalar_partitioner);
 
     r_.reinit(offline_data_->hyperbolic_vector_partitioner());
     using View =
@@ -946,7 +948,8 @@ namespace ryujin
                   bounds,
                   bounds_.template get_tensor<T, std::array<T, n_bounds>>(js));
             }
-            bounds_.template write_tensor<T>(bounds, i);
+            /* Neighbors still need our own, unextended bounds: */
+            extended_bounds_.template write_tensor<T>(bounds, i);
           }
 
           [[maybe_unused]] T m_i;
@@ -1083,6 +1086,11 @@ namespace ryujin
 
         unsigned int stride_size = get_stride_size<T>;
 
+        const auto &limiter_bounds =
+            offline_data_->discretization().have_discontinuous_ansatz()
+                ? extended_bounds_
+                : bounds_;
+
         /* Stored thread locally: */
         AlignedVector<T> lij_row;
         Limiter limiter(
@@ -1134,7 +1142,7 @@ namespace ryujin
             continue;
 
           const auto bounds =
-              bounds_.template get_tensor<T, std::array<T, n_bounds>>(i);
+              limiter_bounds.template get_tensor<T, std::array<T, n_bounds>>(i);
           /* Skip diagonal. */
           for (unsigned int col_idx = 1; col_idx < row_length; ++col_idx) {
 
-- 
2.43.0


From 7da889ba74bdd3973423d7fc568eb4ab5be9d059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:29 +0000
Subject: [PATCH 20/28] fix: rotate 3D initial configurations into the
 configured direction

After rolling the third component of the direction onto the xy-plane the
first component of the rolled direction has to be used for the second
rotation. Otherwise directions with a nonzero second and third component,
or with a negative first component, were not mapped onto the x-axis.
---
 source/initial_values.template.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/initial_values.template.h b/source/initial_values.template.h
index 8b563cb..018363a 100644
--- a/source/initial_values.template.h
+++ b/source/initial_values.template.h
@@ -93,6 +93,9 @@ namespace ryujin
       /* Roll second component of initial_direction onto x-axis: */
       if constexpr (dim >= 2) {
         auto n_x = initial_direction[0];
+        /* In 3D, the third component has been rolled onto the x-axis: */
+        if constexpr (dim == 3)
+          n_x = std::hypot(n_x, initial_direction[2]);
         auto n_y = initial_direction[1];
         const auto norm = std::sqrt(n_x * n_x + n_y * n_y);
         n_x /= norm;
@@ -119,6 +122,9 @@ namespace ryujin
     {
       if constexpr (dim >= 2) {
         auto n_x = initial_direction[0];
+        /* In 3D, the third component has been rolled onto the x-axis: */
+        if constexpr (dim == 3)
+          n_x = std::hypot(n_x, initial_direction[2]);
         auto n_y = initial_direction[1];
         const auto norm = std::sqrt(n_x * n_x + n_y * n_y);
         n_x /= norm;
-- 
2.43.0


From 8672264a3a708c9e99f0b4661f8959b75f682938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:29 +0000
Subject: [PATCH 21/28] fix: account for the reference velocity in the density
 of the Noh solution

The density ahead of the shock is rho_0 (1 + u_0 t / r)^(dim - 1); the
velocity was missing, and mass was not conserved for u_0 != 1.
---
 source/euler/initial_state_noh.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/euler/initial_state_noh.h b/source/euler/initial_state_noh.h
index 3b7382e..5f834af 100644
--- a/source/euler/initial_state_noh.h
+++ b/source/euler/initial_state_noh.h
@@ -91,7 +91,7 @@ namespace ryujin
           p = 0.5 * rho0_ * u0_ * u0_;
           p *= std::pow(gamma_ + 1., dim) / std::pow(gamma_ - 1., dim - 1);
         } else {
-          rho = rho0_ * std::pow(1. + t / (norm + min), dim - 1);
+          rho = rho0_ * std::pow(1. + u0_ * t / (norm + min), dim - 1);
         }
 
         /* Set final state */
-- 
2.43.0


From 6076f70b53e92a61c2ac5b260d3bad77873028c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:29 +0000
Subject: [PATCH 22/28] fix: interpret the pressure expression of the function
 initial state as pressure

The primitive state of EulerAEOS holds the specific internal energy; an
initial state (rho, u, p) has to be converted with from_initial_state().
---
 source/euler/initial_state_function.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/euler/initial_state_function.h b/source/euler/initial_state_function.h
index 51e71ec..86c29e7 100644
--- a/source/euler/initial_state_function.h
+++ b/source/euler/initial_state_function.h
@@ -112,7 +112,7 @@ namespace ryujin
         pressure_function_->set_time(t);
         full_primitive_state[1 + dim] = pressure_function_->value(point);
 
-        return view.from_primitive_state(full_primitive_state);
+        return view.from_initial_state(full_primitive_state);
       }
 
     private:
-- 
2.43.0


From 55bbea524722b2f0c136eea3e7f1b12105ae2965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:47 +0000
Subject: [PATCH 23/28] fix: compute the post-shock density of a covolume gas

The speed of sound accounted for the covolume b but the density ratio
across the shock did not, and the jump conditions were violated for b != 0.
---
 source/euler/initial_state_icf_like.h    | 3 ++-
 source/euler/initial_state_shock_front.h | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/euler/initial_state_icf_like.h b/source/euler/initial_state_icf_like.h
index 9cca0d2..933fee0 100644
--- a/source/euler/initial_state_icf_like.h
+++ b/source/euler/initial_state_icf_like.h
@@ -114,7 +114,8 @@ namespace ryujin
 
           const Number rho_L =
               rho_R * (gamma_ + Number(1.)) * delta_mach * delta_mach /
-              ((gamma_ - Number(1.)) * delta_mach * delta_mach + Number(2.));
+              ((gamma_ - Number(1.)) * delta_mach * delta_mach + Number(2.) +
+               Number(2.) * b * rho_R * (delta_mach * delta_mach - Number(1.)));
           const Number u_L =
               (Number(1.) - rho_R / rho_L) * S3_ + rho_R / rho_L * u_R;
           const Number p_L = p_R *
diff --git a/source/euler/initial_state_shock_front.h b/source/euler/initial_state_shock_front.h
index ea0cd68..e784c0d 100644
--- a/source/euler/initial_state_shock_front.h
+++ b/source/euler/initial_state_shock_front.h
@@ -81,7 +81,8 @@ namespace ryujin
 
           const Number rho_L =
               rho_R * (gamma_ + Number(1.)) * delta_mach * delta_mach /
-              ((gamma_ - Number(1.)) * delta_mach * delta_mach + Number(2.));
+              ((gamma_ - Number(1.)) * delta_mach * delta_mach + Number(2.) +
+               Number(2.) * b * rho_R * (delta_mach * delta_mach - Number(1.)));
           const Number u_L =
               (Number(1.) - rho_R / rho_L) * S3_ + rho_R / rho_L * u_R;
           const Number p_L = p_R *
-- 
2.43.0


From ef9c9e8d93b9d96c57b635d4da8bba2bf0664ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:47 +0000
Subject: [PATCH 24/28] fix: use the gamma of the equation of state for the ICF
 like initial state

The post-shock state was always computed with gamma = 1.4 for the
polytropic Euler equations.
---
 source/euler/initial_state_icf_like.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/euler/initial_state_icf_like.h b/source/euler/initial_state_icf_like.h
index 933fee0..3255c31 100644
--- a/source/euler/initial_state_icf_like.h
+++ b/source/euler/initial_state_icf_like.h
@@ -83,6 +83,9 @@ namespace ryujin
 
         const auto convert_states = [&]() {
           const auto view = hyperbolic_system_.template view<dim, Number>();
+          if constexpr (View::have_gamma) {
+            gamma_ = view.gamma();
+          }
           state_inside_ = view.from_initial_state(primitive_inside_);
           state_outside_ = view.from_initial_state(primitive_outside_);
         };
-- 
2.43.0


From a141147cfe43e24d608ed59406515c68cb8c0c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:25 +0000
Subject: [PATCH 25/28] fix: write every cell of the level set output only once

The cell selection also accepted ghost cells, so that with more than one
MPI rank cells next to an interface were written by several ranks.
---
 source/vtu_output.template.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/vtu_output.template.h b/source/vtu_output.template.h
index b2f1c2c..fcf62cf 100644
--- a/source/vtu_output.template.h
+++ b/source/vtu_output.template.h
@@ -165,7 +165,8 @@ namespace ryujin
             std::make_shared<FunctionParser<dim>>(expression));
 
       data_out->set_cell_selection([level_set_functions](const auto &cell) {
-        if (!cell->is_active() || cell->is_artificial())
+        /* Ghost cells are written by the MPI rank that owns them: */
+        if (!cell->is_active() || !cell->is_locally_owned())
           return false;
 
         for (const auto &function : level_set_functions) {
-- 
2.43.0


From cf4f04a1021f17f18f751a0287e69cd45047ad2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:25 +0000
Subject: [PATCH 26/28] fix: ignore constrained degrees of freedom in the
 bounds for schlieren plots

No value is computed at constrained degrees of freedom; the minimum
therefore became zero, and after the first output the normalized values of
the previous output were compared with the raw values of the current one.
---
 source/postprocessor.template.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/postprocessor.template.h b/source/postprocessor.template.h
index 628c423..363b92a 100644
--- a/source/postprocessor.template.h
+++ b/source/postprocessor.template.h
@@ -236,6 +236,10 @@ namespace ryujin
       for (unsigned int d = 0; d < n_quantities; ++d) {
         auto &[q_max, q_min] = bounds_[d];
         for (unsigned int i = 0; i < n_owned; ++i) {
+          /* Skip constrained degrees of freedom, they hold no current value: */
+          if (sparsity_simd.row_length(i) == 1)
+            continue;
+
           const auto q = quantities_[d].local_element(i);
           q_max = std::max(q_max, std::abs(q));
           q_min = std::min(q_min, std::abs(q));
-- 
2.43.0


From 27be4088454f2962412e77e90d51d12f42a6d6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:24 +0000
Subject: [PATCH 27/28] fix: fill in the density of constrained degrees of
 freedom for the multigrid levels

---
 source/navier_stokes/parabolic_solver.template.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/source/navier_stokes/parabolic_solver.template.h b/source/navier_stokes/parabolic_solver.template.h
index 6ad2a25..e169dfa 100644
--- a/source/navier_stokes/parabolic_solver.template.h
+++ b/source/navier_stokes/parabolic_solver.template.h
@@ -383,8 +383,15 @@ namespace ryujin
 
           level_velocity_matrices_.resize(level_matrix_free_.min_level(),
                                           level_matrix_free_.max_level());
+
+          /*
+           * The level matrices know nothing of the constraints. Thus, fill
+           * in the density of constrained degrees of freedom:
+           */
+          ScalarVector density(density_);
+          affine_constraints.distribute(density);
           mg_transfer_velocity_.interpolate_to_mg(
-              offline_data_->dof_handler(), level_density_, density_);
+              offline_data_->dof_handler(), level_density_, density);
 
           for (unsigned int level = level_matrix_free_.min_level();
                level <= level_matrix_free_.max_level();
-- 
2.43.0


From 99cb564c791ec02b0b4de98ed9ffdaae6c7ad3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:24 +0000
Subject: [PATCH 28/28] fix: check the minimum principle of the internal energy
 on unconstrained degrees of freedom

---
 .../navier_stokes/parabolic_solver.template.h | 23 ++++++++++++-------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/source/navier_stokes/parabolic_solver.template.h b/source/navier_stokes/parabolic_solver.template.h
index e169dfa..b37b218 100644
--- a/source/navier_stokes/parabolic_solver.template.h
+++ b/source/navier_stokes/parabolic_solver.template.h
@@ -425,6 +425,19 @@ namespace ryujin
         LIKWID_MARKER_STOP("time_step_parabolic_1");
       }
 
+      /*
+       * Compute the global minimum over all unconstrained degrees of
+       * freedom. (Constrained degrees of freedom are set to zero.)
+       */
+      const auto global_minimum = [&](const ScalarVector &vector) {
+        const auto &partitioner = *vector.get_partitioner();
+        Number result = std::numeric_limits<Number>::max();
+        for (unsigned int i = 0; i < n_owned; ++i)
+          if (!affine_constraints.is_constrained(partitioner.local_to_global(i)))
+            result = std::min(result, vector.local_element(i));
+        return Utilities::MPI::min(result, mpi_communicator_);
+      };
+
       Number e_min_old;
 
       {
@@ -433,10 +446,7 @@ namespace ryujin
 
         /* Compute the global minimum of the internal energy: */
 
-        // .begin() and .end() denote the locally owned index range:
-        e_min_old =
-            *std::min_element(internal_energy_.begin(), internal_energy_.end());
-        e_min_old = Utilities::MPI::min(e_min_old, mpi_communicator_);
+        e_min_old = global_minimum(internal_energy_);
 
         // FIXME: create a meaningful relaxation based on global mesh size min.
         constexpr Number eps = std::numeric_limits<Number>::epsilon();
@@ -768,10 +778,7 @@ namespace ryujin
           Scope scope(computing_timer_,
                       "time step [P] _ - synchronization barriers");
 
-          // .begin() and .end() denote the locally owned index range:
-          auto e_min_new = *std::min_element(internal_energy_.begin(),
-                                             internal_energy_.end());
-          e_min_new = Utilities::MPI::min(e_min_new, mpi_communicator_);
+          const auto e_min_new = global_minimum(internal_energy_);
 
           if (e_min_new < e_min_old) {
 #ifdef DEBUG_OUTPUT
-- 
2.43.0

