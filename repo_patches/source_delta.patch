From 3edce97342ae0a7931e3c03d7424587bfc49aa99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:19 +0000
Subject: [PATCH 01/16] fix: report the MaxIter history in the scale of the
 input data

RegressionError::MaxIter exposed the history in the internal standardized
basis, so its entries could not be compared with a fit or used as an
initial guess.
---
 src/glm.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/glm.rs b/src/glm.rs
index 335f869..762f380 100644
--- a/src/glm.rs
+++ b/src/glm.rs
@@ -6,7 +6,7 @@ use crate::irls::IrlsStep;
 use crate::link::{Link, Transform};
 use crate::{
     data::Dataset,
-    error::RegressionResult,
+    error::{RegressionError, RegressionResult},
     fit::{Fit, options::FitOptions},
     irls::Irls,
     model::Model,
@@ -178,6 +178,20 @@ pub trait Glm: Sized {
         // we've got the optimum. The full history is stored in the IRLS structure.
         let optimum: IrlsStep<F> = process_results(irls.by_ref(), |iter| {
             iter.max_by(|a, b| a.like.total_cmp(&b.like))
+        })
+        .map_err(|err| match err {
+            // The history is public, so it should be reported in the scale of the input data.
+            RegressionError::MaxIter { n_iter, history } => RegressionError::MaxIter {
+                n_iter,
+                history: history
+                    .into_iter()
+                    .map(|IrlsStep { guess, like }| IrlsStep {
+                        guess: model.data.inverse_transform_beta(guess),
+                        like,
+                    })
+                    .collect(),
+            },
+            err => err,
         })?
         .unwrap_or_else(|| irls.make_last_step());
 
-- 
2.43.0


From d256e85a182b34ecc99dddf8048f2f5107bcb7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:58 +0000
Subject: [PATCH 02/16] fix: return an error when IRLS breaks down with a
 non-finite step

A NaN or infinite step or likelihood made the step search fail, which was
taken for convergence: the fit returned Ok with the current guess (possibly
the initial one) or with a NaN likelihood.
---
 src/irls.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/irls.rs b/src/irls.rs
index e036633..98ae794 100644
--- a/src/irls.rs
+++ b/src/irls.rs
@@ -265,6 +265,17 @@ where
         let beta_tol_factor = num_traits::Float::sqrt(self.guess.mapv(|b| F::one() + b * b).sum());
         let step_mult: F = step_scale(&f_step, beta_tol_factor * self.options.tol);
         if step_mult.is_zero() {
+            // A search that fails because the step or the objective isn't finite has broken down
+            // rather than converged, so the current guess shouldn't be passed off as an optimum.
+            let finite = |x: F| num_traits::Float::is_finite(x);
+            if !(finite(last_like_obj)
+                && finite(next_like_obj)
+                && next_guess.iter().all(|&b| finite(b)))
+            {
+                return Some(Err(RegressionError::BadInput(
+                    "the IRLS step or likelihood is not finite".to_string(),
+                )));
+            }
             // can't find a strictly better minimum if the step multiplier returns zero
             return None;
         }
-- 
2.43.0


From 5ab6f73d393b478bd840774730db7e92571c59d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:58 +0000
Subject: [PATCH 03/16] fix: leave the ADMM augmentation out of the Fisher
 information

With L1 regularization the internal ADMM parameter rho, whose value depends
on the path of the solver, was added to the information matrix and so
changed the covariance, leverage, standard errors and tests.
---
 src/fit.rs            |  2 +-
 src/regularization.rs | 18 ++++++++++++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/fit.rs b/src/fit.rs
index c03d6d8..c2bce8d 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -330,7 +330,7 @@ where
     /// coefficients. The regularization is included here.
     fn fisher_std(&self, params: &Array1<F>) -> Array2<F> {
         let fisher = self.fisher_data_std(params);
-        self.reg.as_ref().irls_mat(fisher, params)
+        self.reg.as_ref().information(fisher, params)
     }
 
     /// The inverse of the (regularized) fisher information matrix, in the internal standardized
diff --git a/src/regularization.rs b/src/regularization.rs
index f9b7ba3..d34b614 100644
--- a/src/regularization.rs
+++ b/src/regularization.rs
@@ -38,6 +38,12 @@ where
     /// typically only on the diagonal.
     fn irls_mat(&self, mat: Array2<F>, regressors: &Array1<F>) -> Array2<F>;
 
+    /// Add the contribution of the penalty to the information matrix. This only differs from
+    /// `irls_mat()` if the IRLS step is augmented, as with ADMM.
+    fn information(&self, mat: Array2<F>, regressors: &Array1<F>) -> Array2<F> {
+        self.irls_mat(mat, regressors)
+    }
+
     /// Return the next guess under regularization given the current guess and the RHS and LHS of
     /// the unregularized IRLS matrix solution equation for the next guess.
     fn next_guess(
@@ -218,6 +224,11 @@ impl<F: Float> IrlsReg<F> for Lasso<F> {
         mat
     }
 
+    /// The L1 penalty has no curvature, and the augmentation is a solver detail.
+    fn information(&self, mat: Array2<F>, _: &Array1<F>) -> Array2<F> {
+        mat
+    }
+
     fn terminate_ok(&self, tol: F) -> bool {
         // Expressed like this, it should perhaps instead be an epsilon^2.
         let n: usize = self.dual.len();
@@ -333,6 +344,13 @@ impl<F: Float> IrlsReg<F> for ElasticNet<F> {
         mat
     }
 
+    /// Only the L2 penalty has curvature; the augmentation is a solver detail.
+    fn information(&self, mut mat: Array2<F>, _: &Array1<F>) -> Array2<F> {
+        let mut mat_diag: ArrayViewMut1<F> = mat.diag_mut();
+        mat_diag += &self.l2_vec;
+        mat
+    }
+
     fn terminate_ok(&self, tol: F) -> bool {
         // Expressed like this, it should perhaps instead be an epsilon^2.
         let n: usize = self.dual.len();
-- 
2.43.0


From 83c6d3bedd48726ad897e20cb07e3496a401a2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:11 +0000
Subject: [PATCH 04/16] fix: do not assume an intercept in the models of
 pvalue_exact

Dropping a covariate of a model without an intercept made the reduced model
claim that its first covariate was an intercept, which exempted it from the
penalty (or panicked if no covariate was left).
---
 src/fit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fit.rs b/src/fit.rs
index c2bce8d..705d089 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -1021,7 +1021,7 @@ where
             linear_offset: self.data.linear_offset.clone(),
             weights: self.data.weights.clone(),
             freqs: self.data.freqs.clone(),
-            has_intercept: !is_intercept,
+            has_intercept: self.data.has_intercept && !is_intercept,
             // It shouldn't be necessary to standardize again. Each individual column should
             // already be standardized, if the full dataset was.
             standardizer: None,
-- 
2.43.0


From 77ca93c9d54ac2f4f530bfb994b82245aff246f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:11 +0000
Subject: [PATCH 05/16] fix: do not panic in pvalue_exact if the deviance does
 not increase

The F distribution is only defined for non-negative statistics, so a
deviance difference that is negative from rounding or from the penalty
panicked for families with free dispersion.
---
 src/fit.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fit.rs b/src/fit.rs
index 705d089..4c1a138 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -1131,7 +1131,14 @@ where
         let mut pvals = Array1::<F>::zeros(n_par);
         for k in 0..n_par {
             let dev_reduced = self.dev_without_covariate(k)?;
+            // Rounding, or a penalty, can leave the reduced model with the smaller deviance. The
+            // distributions below are only defined for non-negative statistics.
             let delta_d = dev_reduced - dev_full;
+            let delta_d = if delta_d < F::zero() {
+                F::zero()
+            } else {
+                delta_d
+            };
 
             let p = match M::DISPERSED {
                 DispersionType::NoDispersion => {
-- 
2.43.0


From 92f5a0ffccc66aa8d2b7c138fc2a1951d6925237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:12 +0000
Subject: [PATCH 06/16] fix: do not starve the fit of the null model

A small max_iter that sufficed for the main fit, for instance because of a
good initial guess, made null_like() and the tests using it panic when the
null model has to be fit.
---
 src/fit.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/fit.rs b/src/fit.rs
index 4c1a138..548969d 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -629,9 +629,14 @@ where
                         let null_fit = null_model
                             .fit_options()
                             // There shouldn't be too much trouble fitting this
-                            // single-parameter fit, but there shouldn't be harm in
-                            // using the same maximum as in the original model.
-                            .max_iter(self.options.max_iter)
+                            // single-parameter fit, but don't let a small maximum that was
+                            // enough for the original model (e.g. starting from a good
+                            // guess) starve this one, which starts from scratch.
+                            .max_iter(
+                                self.options
+                                    .max_iter
+                                    .max(FitOptions::<F>::default().max_iter),
+                            )
                             .fit()
                             .expect("Could not fit null model!");
                         let null_params: Array1<F> = {
-- 
2.43.0


From 2551e8dbffc63a2a8438b69344c25a8b786bdcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:09 +0000
Subject: [PATCH 07/16] fix: do not panic when a warning cannot be written

eprintln! panics if stderr cannot be written to, e.g. when it is a closed
pipe or on a full disk, so an advisory warning aborted a valid build or fit.
---
 src/glm.rs   | 4 ++--
 src/irls.rs  | 2 +-
 src/lib.rs   | 9 +++++++++
 src/model.rs | 2 +-
 4 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/glm.rs b/src/glm.rs
index 762f380..3e2754b 100644
--- a/src/glm.rs
+++ b/src/glm.rs
@@ -148,8 +148,8 @@ pub trait Glm: Sized {
         let init_guess: Array1<F> = x_mat
             .solveh_into(data.x_conj().dot(&link_y))
             .unwrap_or_else(|err| {
-                eprintln!("WARNING: failed to get initial guess for IRLS. Will begin at zero.");
-                eprintln!("{err}");
+                warn_stderr!("WARNING: failed to get initial guess for IRLS. Will begin at zero.");
+                warn_stderr!("{err}");
                 Array1::<F>::zeros(data.x.ncols())
             });
         init_guess
diff --git a/src/irls.rs b/src/irls.rs
index 98ae794..cbe612a 100644
--- a/src/irls.rs
+++ b/src/irls.rs
@@ -331,7 +331,7 @@ fn get_reg<F: Float>(
     use_intercept: bool,
 ) -> Box<dyn IrlsReg<F>> {
     if options.l1 < F::zero() || options.l2 < F::zero() {
-        eprintln!("WARNING: regularization parameters should not be negative.");
+        warn_stderr!("WARNING: regularization parameters should not be negative.");
     }
     let use_l1 = options.l1 > F::zero();
     let use_l2 = options.l2 > F::zero();
diff --git a/src/lib.rs b/src/lib.rs
index ef6580c..972be4e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -203,6 +203,15 @@
 //! For a more complete mathematical reference, see the
 //! [derivation notes](https://felix-clark.github.io/src/tex/glm-math/main.pdf).
 
+/// Print a diagnostic to stderr. Unlike `eprintln!`, a failure to write it (e.g. to a closed pipe or
+/// a full disk) is ignored instead of causing a panic in an otherwise valid computation.
+macro_rules! warn_stderr {
+    ($($arg:tt)*) => {{
+        use std::io::Write;
+        let _ = writeln!(std::io::stderr(), $($arg)*);
+    }};
+}
+
 mod data;
 pub mod error;
 mod fit;
diff --git a/src/model.rs b/src/model.rs
index ffb561f..1e4df42 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -208,7 +208,7 @@ where
             // The regression can find a solution if n_data == ncols, but there will be
             // no estimate for the uncertainty. Regularization can solve this, so keep
             // it to a warning.
-            eprintln!("Warning: data is underconstrained");
+            warn_stderr!("Warning: data is underconstrained");
         }
 
         // Put the data in column-major order, since broadcasting and summing over the observations
-- 
2.43.0


From 4b935c09370102b7300432d75c3c9ae699c04382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:09 +0000
Subject: [PATCH 08/16] fix: check the number of weights when building a model

Variance or frequency weights of the wrong length panicked in build(), or
were silently broadcast if only one was given.
---
 src/model.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/model.rs b/src/model.rs
index 1e4df42..3292a0a 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -202,6 +202,17 @@ where
                 "Offsets must have same dimension as observations".to_string(),
             ));
         }
+        // Likewise for each kind of weights
+        for weights in [&self.var_weights, &self.freq_weights]
+            .into_iter()
+            .flatten()
+        {
+            if n_data != weights.len() {
+                return Err(RegressionError::BadInput(
+                    "Weights must have same dimension as observations".to_string(),
+                ));
+            }
+        }
 
         // Check if the data is under-constrained
         if n_data < self.data_x.ncols() {
-- 
2.43.0


From 83f8ee4c3a8ee2664dc864fb7d06fa86df8cd530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:24 +0000
Subject: [PATCH 09/16] fix: do not take a step from a non-finite system for
 convergence

If the mean or the variance overflows, or the derivatives of the link are not
finite, the IRLS system can still have a finite solution, which means nothing.
If that step happened not to change or not to improve the guess, the fit ended
as if it had converged.
---
 src/irls.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/irls.rs b/src/irls.rs
index cbe612a..9c4c370 100644
--- a/src/irls.rs
+++ b/src/irls.rs
@@ -193,6 +193,10 @@ where
         }
 
         let (irls_mat, irls_vec) = self.irls_mat_vec();
+        let finite = |x: F| num_traits::Float::is_finite(x);
+        // A non-finite system can be solved by a finite step that means nothing, so the iteration
+        // shouldn't be considered as converged because of one.
+        let finite_system = irls_mat.iter().chain(irls_vec.iter()).all(|&x| finite(x));
         let next_guess: Array1<F> = match self.reg.next_guess(&self.guess, irls_vec, irls_mat) {
             Ok(solution) => solution,
             Err(err) => return Some(Err(err)),
@@ -225,6 +229,9 @@ where
         // iteration will have length zero and the GLM regression function will query this IRLS
         // object for its initial step object.
         if next_guess == self.guess {
+            if !(finite_system && finite(last_like_obj)) {
+                return Some(Err(non_finite_error()));
+            }
             return None;
         }
 
@@ -235,7 +242,8 @@ where
         // If ADMM hasn't converged, we've already iterated to the next step, so we don't need to
         // check self.reg.terminate_ok() again.
         let n_obs = F::from(self.data.y.len()).unwrap();
-        if small_delta(next_like_obj, last_like_obj, self.options.tol * n_obs)
+        if finite_system
+            && small_delta(next_like_obj, last_like_obj, self.options.tol * n_obs)
             && small_delta_vec(&next_guess, &self.guess, self.options.tol)
         {
             self.done = true;
@@ -267,14 +275,12 @@ where
         if step_mult.is_zero() {
             // A search that fails because the step or the objective isn't finite has broken down
             // rather than converged, so the current guess shouldn't be passed off as an optimum.
-            let finite = |x: F| num_traits::Float::is_finite(x);
-            if !(finite(last_like_obj)
+            if !(finite_system
+                && finite(last_like_obj)
                 && finite(next_like_obj)
                 && next_guess.iter().all(|&b| finite(b)))
             {
-                return Some(Err(RegressionError::BadInput(
-                    "the IRLS step or likelihood is not finite".to_string(),
-                )));
+                return Some(Err(non_finite_error()));
             }
             // can't find a strictly better minimum if the step multiplier returns zero
             return None;
@@ -288,6 +294,11 @@ where
     }
 }
 
+/// The error for an iteration that has broken down.
+fn non_finite_error<F: Float>() -> RegressionError<F> {
+    RegressionError::BadInput("the IRLS step or likelihood is not finite".to_string())
+}
+
 fn small_delta<F>(new: F, old: F, tol: F) -> bool
 where
     F: Float,
-- 
2.43.0


From 4f202a2ec79a9e6a6a94b3cee7a148e9ebe97fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:12 +0000
Subject: [PATCH 10/16] fix: do not take a NaN likelihood for the best of the
 fit

total_cmp() orders NaN above every number, so a step whose likelihood could not
be computed was returned as the optimum even if the fit recovered from it.
---
 src/glm.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/glm.rs b/src/glm.rs
index 3e2754b..e4772a7 100644
--- a/src/glm.rs
+++ b/src/glm.rs
@@ -177,7 +177,11 @@ pub trait Glm: Sized {
         // Collect the best guess along the way so we don't have to loop back through to make sure
         // we've got the optimum. The full history is stored in the IRLS structure.
         let optimum: IrlsStep<F> = process_results(irls.by_ref(), |iter| {
-            iter.max_by(|a, b| a.like.total_cmp(&b.like))
+            // total_cmp() ranks NaN above every number, but it is never the best likelihood.
+            iter.max_by(|a, b| {
+                let nan = |step: &IrlsStep<F>| num_traits::Float::is_nan(step.like);
+                nan(b).cmp(&nan(a)).then_with(|| a.like.total_cmp(&b.like))
+            })
         })
         .map_err(|err| match err {
             // The history is public, so it should be reported in the scale of the input data.
-- 
2.43.0


From 36543b474d6bbf22e5abe74533a0f6fc753d5def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:18 +0000
Subject: [PATCH 11/16] fix: do not end the fit on a step search that cannot be
 evaluated

If the likelihood cannot be computed at the guess, or next to it, every
comparison of the search fails, which was taken for convergence.
---
 src/irls.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/irls.rs b/src/irls.rs
index 9c4c370..d32315a 100644
--- a/src/irls.rs
+++ b/src/irls.rs
@@ -11,7 +11,7 @@ use crate::{
 };
 use ndarray::{Array1, Array2, ArrayRef2};
 use ndarray_linalg::SolveH;
-use std::marker::PhantomData;
+use std::{cell::Cell, marker::PhantomData};
 
 /// Iterate over updates via iteratively re-weighted least-squares until
 /// reaching a specified tolerance.
@@ -259,6 +259,9 @@ where
         // NOTE: It's difficult to engage the step halving because it's rarely necessary, so this
         // part of the algorithm is undertested. It may be more common using L1 regularization.
         // next_guess != self.guess because we've already checked that case above.
+        // The objective at the guess (x = 0) and at the last point beyond it that was looked at, which
+        // is the closest one to the guess if the search fails.
+        let (f_guess, f_near) = (Cell::new(last_like_obj), Cell::new(last_like_obj));
         let f_step = |x: F| {
             let b = &next_guess * x + &self.guess * (F::one() - x);
             // The augmented and unaugmented checks should be close to equivalent at this point
@@ -267,7 +270,13 @@ where
             // the best model likelihood in the step search.
             // NOTE: It's possible there are some edge cases with an inconsistency, given that the
             // checks above use the augmented likelihood and this checks directly.
-            M::log_like(self.data, &b) + self.reg.likelihood(&b) // unaugmented
+            let like = M::log_like(self.data, &b) + self.reg.likelihood(&b); // unaugmented
+            if x.is_zero() {
+                f_guess.set(like);
+            } else if x > F::zero() {
+                f_near.set(like);
+            }
+            like
             // M::log_like(self.data, &b) + self.reg.irls_like(&b) // augmented
         };
         let beta_tol_factor = num_traits::Float::sqrt(self.guess.mapv(|b| F::one() + b * b).sum());
@@ -278,6 +287,8 @@ where
             if !(finite_system
                 && finite(last_like_obj)
                 && finite(next_like_obj)
+                && finite(f_guess.get())
+                && finite(f_near.get())
                 && next_guess.iter().all(|&b| finite(b)))
             {
                 return Some(Err(non_finite_error()));
-- 
2.43.0


From b5b6ffe852dc86fe0d5bb49c7bc3653f40b0b43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:37 +0000
Subject: [PATCH 12/16] fix: do not lose ground in the step search

The search compared its candidates with a new evaluation of the likelihood of
the guess, and evaluated it once more at the point it settled on. If the sums
are not reproducible, e.g. with a multi-threaded BLAS, a point can be accepted
that is worse than the likelihood on record, and the fit may go on doing so
until max_iter.
---
 src/irls.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/irls.rs b/src/irls.rs
index d32315a..4017a19 100644
--- a/src/irls.rs
+++ b/src/irls.rs
@@ -259,10 +259,17 @@ where
         // NOTE: It's difficult to engage the step halving because it's rarely necessary, so this
         // part of the algorithm is undertested. It may be more common using L1 regularization.
         // next_guess != self.guess because we've already checked that case above.
-        // The objective at the guess (x = 0) and at the last point beyond it that was looked at, which
-        // is the closest one to the guess if the search fails.
-        let (f_guess, f_near) = (Cell::new(last_like_obj), Cell::new(last_like_obj));
+        // The likelihood of the guess (x = 0) is on record. If the sums aren't reproducible, evaluating
+        // it again could give a smaller value, and accepting a step for improving on that would lose
+        // ground and may never end.
+        let f_guess = self.last_like_data + self.reg.likelihood(&self.guess);
+        // The objective at the last point beyond the guess that was looked at, which is the closest
+        // one to the guess if the search fails, and the data likelihood of the last point.
+        let (f_near, like_data) = (Cell::new(last_like_obj), Cell::new(self.last_like_data));
         let f_step = |x: F| {
+            if x.is_zero() {
+                return f_guess;
+            }
             let b = &next_guess * x + &self.guess * (F::one() - x);
             // The augmented and unaugmented checks should be close to equivalent at this point
             // because the regularization has reported that the internals have converged via
@@ -270,10 +277,9 @@ where
             // the best model likelihood in the step search.
             // NOTE: It's possible there are some edge cases with an inconsistency, given that the
             // checks above use the augmented likelihood and this checks directly.
-            let like = M::log_like(self.data, &b) + self.reg.likelihood(&b); // unaugmented
-            if x.is_zero() {
-                f_guess.set(like);
-            } else if x > F::zero() {
+            like_data.set(M::log_like(self.data, &b));
+            let like = like_data.get() + self.reg.likelihood(&b); // unaugmented
+            if x > F::zero() {
                 f_near.set(like);
             }
             like
@@ -287,7 +293,7 @@ where
             if !(finite_system
                 && finite(last_like_obj)
                 && finite(next_like_obj)
-                && finite(f_guess.get())
+                && finite(f_guess)
                 && finite(f_near.get())
                 && next_guess.iter().all(|&b| finite(b)))
             {
@@ -297,9 +303,10 @@ where
             return None;
         }
 
-        // If the step multiplier is not zero, it found a better guess
+        // If the step multiplier is not zero, it found a better guess, which is the last point it
+        // looked at.
         let next_guess = &next_guess * step_mult + &self.guess * (F::one() - step_mult);
-        let next_like_data = M::log_like(self.data, &next_guess);
+        let next_like_data = like_data.get();
 
         Some(self.step_with(next_guess, next_like_data))
     }
-- 
2.43.0


From 881a2f4bd480f1b8d2860b3efc896ca960bb20b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:48 +0000
Subject: [PATCH 13/16] fix: end the step search for a zero tolerance

---
 src/irls.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/irls.rs b/src/irls.rs
index 4017a19..871f206 100644
--- a/src/irls.rs
+++ b/src/irls.rs
@@ -389,7 +389,9 @@ fn get_reg<F: Float>(
 /// found to be a strict improvement.
 /// If none are found, it will check a single negative step.
 fn step_scale<F: Float>(f: &dyn Fn(F) -> F, tol: F) -> F {
-    let tol = num_traits::Float::abs(tol);
+    // The scale must end up below the tolerance, but a product rounded to the nearest subnormal number
+    // needn't ever reach zero.
+    let tol = num_traits::Float::max(num_traits::Float::abs(tol), F::min_positive_value());
     // TODO: Add list of values to explicitly try (for instance with zeroed parameters)
 
     let zero: F = F::zero();
-- 
2.43.0


From 60fd8bf2c75d02b35e790a977618e369f691e554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:03 +0000
Subject: [PATCH 14/16] fix: don't take a failed search along a long step for
 convergence

---
 src/irls.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/irls.rs b/src/irls.rs
index 871f206..11321f0 100644
--- a/src/irls.rs
+++ b/src/irls.rs
@@ -286,7 +286,15 @@ where
             // M::log_like(self.data, &b) + self.reg.irls_like(&b) // augmented
         };
         let beta_tol_factor = num_traits::Float::sqrt(self.guess.mapv(|b| F::one() + b * b).sum());
-        let step_mult: F = step_scale(&f_step, beta_tol_factor * self.options.tol);
+        // The tolerance applies to the change in the parameters, so a long step must be scaled by
+        // less than a short one before the search is given up.
+        let step_length = num_traits::Float::sqrt((&next_guess - &self.guess).mapv(|d| d * d).sum());
+        let step_tol = if step_length > F::one() && finite(step_length) {
+            beta_tol_factor * self.options.tol / step_length
+        } else {
+            beta_tol_factor * self.options.tol
+        };
+        let step_mult: F = step_scale(&f_step, step_tol);
         if step_mult.is_zero() {
             // A search that fails because the step or the objective isn't finite has broken down
             // rather than converged, so the current guess shouldn't be passed off as an optimum.
@@ -299,6 +307,15 @@ where
             {
                 return Some(Err(non_finite_error()));
             }
+            // The step points uphill, so when it loses much and yet nothing better is found anywhere
+            // along it, the linear system was too ill-conditioned to be solved.
+            let loss_tol = num_traits::Float::sqrt(F::epsilon()).max(self.options.tol)
+                * n_obs.max(num_traits::Float::abs(last_like_obj));
+            if next_like_obj < last_like_obj - loss_tol {
+                return Some(Err(RegressionError::BadInput(
+                    "no improvement is found along a long IRLS step".to_string(),
+                )));
+            }
             // can't find a strictly better minimum if the step multiplier returns zero
             return None;
         }
-- 
2.43.0


From ee8c981806ef01e4a0b394a690859f5d0f58ca9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:10 +0000
Subject: [PATCH 15/16] fix: reject NaN responses of positive families

---
 src/response/exponential.rs      | 4 ++--
 src/response/gamma.rs            | 4 ++--
 src/response/inverse_gaussian.rs | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/response/exponential.rs b/src/response/exponential.rs
index 2d6f572..0270916 100644
--- a/src/response/exponential.rs
+++ b/src/response/exponential.rs
@@ -30,7 +30,7 @@ where
     L: Link<Exponential<L>>,
 {
     fn into_float<F: Float>(self) -> RegressionResult<F, F> {
-        if self <= 0. {
+        if self.is_nan() || self <= 0. {
             return Err(RegressionError::InvalidY(self.to_string()));
         }
         F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
@@ -41,7 +41,7 @@ where
     L: Link<Exponential<L>>,
 {
     fn into_float<F: Float>(self) -> RegressionResult<F, F> {
-        if self <= 0. {
+        if self.is_nan() || self <= 0. {
             return Err(RegressionError::InvalidY(self.to_string()));
         }
         F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
diff --git a/src/response/gamma.rs b/src/response/gamma.rs
index bdcbec8..9446f2e 100644
--- a/src/response/gamma.rs
+++ b/src/response/gamma.rs
@@ -29,7 +29,7 @@ where
     L: Link<Gamma<L>>,
 {
     fn into_float<F: Float>(self) -> RegressionResult<F, F> {
-        if self <= 0. {
+        if self.is_nan() || self <= 0. {
             return Err(RegressionError::InvalidY(self.to_string()));
         }
         F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
@@ -40,7 +40,7 @@ where
     L: Link<Gamma<L>>,
 {
     fn into_float<F: Float>(self) -> RegressionResult<F, F> {
-        if self <= 0. {
+        if self.is_nan() || self <= 0. {
             return Err(RegressionError::InvalidY(self.to_string()));
         }
         F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
diff --git a/src/response/inverse_gaussian.rs b/src/response/inverse_gaussian.rs
index 2c26cbd..11d6688 100644
--- a/src/response/inverse_gaussian.rs
+++ b/src/response/inverse_gaussian.rs
@@ -24,7 +24,7 @@ where
     L: Link<InvGaussian<L>>,
 {
     fn into_float<F: Float>(self) -> RegressionResult<F, F> {
-        if self <= 0. {
+        if self.is_nan() || self <= 0. {
             return Err(RegressionError::InvalidY(self.to_string()));
         }
         F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
@@ -35,7 +35,7 @@ where
     L: Link<InvGaussian<L>>,
 {
     fn into_float<F: Float>(self) -> RegressionResult<F, F> {
-        if self <= 0. {
+        if self.is_nan() || self <= 0. {
             return Err(RegressionError::InvalidY(self.to_string()));
         }
         F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
-- 
2.43.0


From b5803d89eed4ecf52bdf1c48008623992f2d3670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:06 +0000
Subject: [PATCH 16/16] fix: no NaN deviance residual for a perfectly fit
 observation

---
 src/fit.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/fit.rs b/src/fit.rs
index 548969d..4e2882e 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -701,7 +701,15 @@ where
     pub fn resid_dev(&self) -> Array1<F> {
         let signs = self.resid_resp().mapv_into(F::signum);
         let ll_diff = self.deviance_terms();
-        let dev: Array1<F> = ll_diff.clone().mapv_into(num_traits::Float::sqrt);
+        // The terms are non-negative, but for a well-fit observation rounding can put one just
+        // below zero.
+        let dev: Array1<F> = ll_diff.mapv(|d| {
+            if d < F::zero() {
+                F::zero()
+            } else {
+                num_traits::Float::sqrt(d)
+            }
+        });
         signs * dev
     }
 
-- 
2.43.0

