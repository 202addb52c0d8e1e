From c85860f8094e5035f0182a54d7fd163e8798c58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:59 +0000
Subject: [PATCH 01/15] fix: use the configured displacer diameter in the
 rhombic drive

---
 src/ws/rhombic_drive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ws/rhombic_drive.rs b/src/ws/rhombic_drive.rs
index 968d5af..68d1ab7 100644
--- a/src/ws/rhombic_drive.rs
+++ b/src/ws/rhombic_drive.rs
@@ -199,7 +199,7 @@ impl From<Config> for RhombicDrive {
             eccentricity: config.eccentricity,
             r_crank: config.r_crank,
             D_p: config.D_p,
-            D_d: config.D_p,
+            D_d: config.D_d,
             L_conn: config.L_conn,
         };
         let parasitics = Parasitics {
-- 
2.43.0


From 63597eceb9ec935daeb62315d0c97d041a379776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:02 +0000
Subject: [PATCH 02/15] fix: report the pressure and flows of the converged
 cycle

A converged engine was returned with the pressure, mass flow, and heat flow
of the previous outer iteration.  When the first iteration converges, which
is always the case for fixed approach heat exchangers, these are the initial
hints: zero flows and a constant pressure.
---
 src/engine/state.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/engine/state.rs b/src/engine/state.rs
index a899b36..f8164fe 100644
--- a/src/engine/state.rs
+++ b/src/engine/state.rs
@@ -114,8 +114,9 @@ impl<T: Fluid> State<T> {
     /// Return `self` updated from new `state_equations::Values`
     ///
     /// The updated `State` is returned as `Ok(self)`.  If the provided
-    /// `values` do not change the `State` within `tol`, then the original
-    /// `State` is returned as `Err(self)`.
+    /// `values` do not change the temperatures within `tol`, then a `State`
+    /// with the original temperatures and all other properties calculated
+    /// from `values` is returned as `Err(self)`.
     #[allow(clippy::result_large_err, clippy::similar_names)]
     pub fn update(
         self,
@@ -163,11 +164,9 @@ impl<T: Fluid> State<T> {
         // Check for temperature convergence
         // TODO: Do we want to check `pres`, `mass_flow`, and `heat_flow` for convergence as well?
         if self.temp.is_converged(new_temp, tol) {
-            // Temperatures are converged and we return `self` unchanged
-            Err(Self {
-                fluid: new_state.fluid,
-                ..self
-            })
+            // Temperatures are converged, so they are kept along with the
+            // pressure, mass flow, and heat flow of the converged cycle
+            Err(new_state)
         } else {
             // Approach temperatures have changed and we return the new `State`
             Ok(Self {
-- 
2.43.0


From 34589afd22770b636249cf6ddb1b5444db2be96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:04 +0000
Subject: [PATCH 03/15] fix: always include the final point of the cycle

The absolute margin added to the end of the integration is smaller than the
rounding error accumulated by the output times of long cycles, in which case
the point at the end of the cycle was missing.
---
 src/state_equations/integrator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/state_equations/integrator.rs b/src/state_equations/integrator.rs
index efffb33..69012f4 100644
--- a/src/state_equations/integrator.rs
+++ b/src/state_equations/integrator.rs
@@ -35,7 +35,7 @@ impl<'a, T: Cycle> Integration<'a, T> {
         let mut stepper = Dopri5::new(
             state,
             0.0,
-            period + 1e-14, // TODO: https://github.com/isentropic-dev/sett-rs/issues/32
+            period + 1e-3 * dx, // ensure rounding in the output times doesn't drop the final point
             dx,
             y0,
             tol.rel,
-- 
2.43.0


From 02ab2948179ef758c0f0b02698ba8abd42b1e3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:36 +0000
Subject: [PATCH 04/15] fix: apply the working space thermal resistances to the
 gas

The heat flow between the gas in the working spaces and their respective heat
exchangers was included in the heat input and rejection, but the gas in the
working spaces was integrated as if it did not take place.  The thermal
parasitics of the working spaces were subtracted from the gas instead, even
though they are counted as external losses in the performance calculations.
Both violate the energy balance of the engine.
---
 src/engine/run.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/engine/run.rs b/src/engine/run.rs
index e1b434b..f6a3434 100644
--- a/src/engine/run.rs
+++ b/src/engine/run.rs
@@ -25,7 +25,7 @@ pub(super) struct Run<'a, T: Fluid, U: MatrixDecomposition> {
     vol_chx: f64,
     vol_hhx: f64,
     vol_regen: f64,
-    ws_parasitics: ws::Parasitics,
+    ws_thermal_res: ws::ThermalResistance,
     ws_vol_fn: Box<dyn Fn(f64) -> (ws::CompVolume, ws::ExpVolume)>,
 }
 
@@ -47,7 +47,7 @@ impl<'a, T: Fluid, U: MatrixDecomposition> Run<'a, T, U> {
         let ws_state = state.ws();
         let period = 1.0 / components.ws.frequency(&ws_state);
         let ws_vol_fn = components.ws.volumes(&ws_state);
-        let ws_parasitics = components.ws.parasitics(&ws_state);
+        let ws_thermal_res = components.ws.thermal_resistance(&ws_state);
 
         Self {
             enth_norm,
@@ -59,7 +59,7 @@ impl<'a, T: Fluid, U: MatrixDecomposition> Run<'a, T, U> {
             vol_chx,
             vol_hhx,
             vol_regen,
-            ws_parasitics,
+            ws_thermal_res,
             ws_vol_fn,
         }
     }
@@ -75,7 +75,7 @@ impl<'a, T: Fluid, U: MatrixDecomposition> Run<'a, T, U> {
             du_dP_T: self.fluid.du_dP_T(temp, pres),
             du_dT_P: self.fluid.du_dT_P(temp, pres),
             dV_dt: vol.deriv,
-            Q_dot: self.ws_parasitics.comp.thermal,
+            Q_dot: (temp - self.temp.chx) / self.ws_thermal_res.comp,
         }
     }
 
@@ -127,7 +127,7 @@ impl<'a, T: Fluid, U: MatrixDecomposition> Run<'a, T, U> {
             du_dP_T: self.fluid.du_dP_T(temp, pres),
             du_dT_P: self.fluid.du_dT_P(temp, pres),
             dV_dt: vol.deriv,
-            Q_dot: self.ws_parasitics.exp.thermal,
+            Q_dot: (temp - self.temp.hhx) / self.ws_thermal_res.exp,
         }
     }
 }
-- 
2.43.0


From 0d766af7b3351ff8fd97f04a60699593509c4035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:38 +0000
Subject: [PATCH 05/15] fix: return an error for cycles with less than two
 points

A resolution of zero underflowed when calculating the time between points,
and a resolution of one returned an engine without a cycle.
---
 src/state_equations/integrator.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/state_equations/integrator.rs b/src/state_equations/integrator.rs
index 69012f4..7cc135b 100644
--- a/src/state_equations/integrator.rs
+++ b/src/state_equations/integrator.rs
@@ -1,6 +1,6 @@
 use std::cell::RefCell;
 
-use anyhow::Result;
+use anyhow::{ensure, Result};
 use ode_solvers::{Dopri5, System, Vector3};
 
 use crate::types::{ConvergenceTolerance, OdeTolerance};
@@ -21,6 +21,7 @@ impl<'a, T: Cycle> Integration<'a, T> {
         num_points: u32,
         tol: OdeTolerance,
     ) -> Result<Self> {
+        ensure!(num_points >= 2, "a cycle requires at least two points");
         let state = IntegrationState {
             cycle,
             last_flow_dir: RefCell::new(FlowDirection::default()),
-- 
2.43.0


From 5ec544bb83a10fbbc6560ade2462384f24284864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:56 +0000
Subject: [PATCH 06/15] fix: return an error if the state equations can't be
 solved

Engine::run promises an error if a converged engine cannot be created, but
panicked if the state equations did not have a solution, for example when
the heat exchangers are too small for the requested conditions.
---
 src/state_equations/cycle.rs      |  2 +-
 src/state_equations/integrator.rs | 24 +++++++++++++++++-------
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/state_equations/cycle.rs b/src/state_equations/cycle.rs
index 57f3bdc..6cbe3bc 100644
--- a/src/state_equations/cycle.rs
+++ b/src/state_equations/cycle.rs
@@ -52,7 +52,7 @@ pub trait Cycle: Sized {
             let integration = Integration::try_from(self, ic, 2, ode_tol)?; // using 2 points here is faster and doesn't affect integration
             if integration.is_converged(conv_tol) {
                 let integration = Integration::try_from(self, ic, num_points, ode_tol)?;
-                return Ok(integration.into_state_values());
+                return integration.try_into_state_values();
             }
             ic = Conditions {
                 P: pres_zero,
diff --git a/src/state_equations/integrator.rs b/src/state_equations/integrator.rs
index 7cc135b..4f4c828 100644
--- a/src/state_equations/integrator.rs
+++ b/src/state_equations/integrator.rs
@@ -87,24 +87,30 @@ impl<'a, T: Cycle> Integration<'a, T> {
     /// Calculate state equation values at each point
     ///
     /// This function consumes the `Integration`.
-    pub fn into_state_values(self) -> Vec<Values> {
+    pub fn try_into_state_values(self) -> Result<Vec<Values>> {
         let mut flow_dir = FlowDirection::default();
         self.points
             .into_iter()
             .map(|point| {
                 let Point { time, conditions } = point;
                 let inputs = self.cycle.calculate_inputs(time, conditions);
-                let solution = solve::<T::Solver>(inputs, flow_dir)
-                    .expect("TODO: what do we do if this fails?");
+                let solution = solve::<T::Solver>(inputs, flow_dir)?;
                 flow_dir = FlowDirection::from_solution(&solution);
-                Values {
+                Ok(Values {
                     time,
                     conditions,
                     solution,
-                }
+                })
             })
             .collect()
     }
+
+    /// Calculate state equation values at each point
+    #[cfg(test)]
+    pub fn into_state_values(self) -> Vec<Values> {
+        self.try_into_state_values()
+            .expect("state equations should solve")
+    }
 }
 
 /// The conditions within the cycle at a point in time
@@ -132,8 +138,12 @@ impl<T: Cycle> System<StateVariables> for IntegrationState<'_, T> {
         };
         let inputs = self.cycle.calculate_inputs(time, conditions);
         let flow_dir_hint = *self.last_flow_dir.borrow();
-        let solution = solve::<T::Solver>(inputs, flow_dir_hint)
-            .expect("TODO: what should we do if this fails?");
+        let Ok(solution) = solve::<T::Solver>(inputs, flow_dir_hint) else {
+            // The stepper rejects steps with NaN derivatives, and returns an
+            // error if the state equations can't be solved by reducing the step
+            dy.fill(f64::NAN);
+            return;
+        };
 
         let flow_dir = FlowDirection::from_solution(&solution);
         self.last_flow_dir.replace(flow_dir);
-- 
2.43.0


From c3ffbe944d5898e326742685021cce48771f11ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:57 +0000
Subject: [PATCH 07/15] fix: normalize by the average enthalpy magnitude

Enthalpy is relative to an arbitrary reference, so the enthalpies at the sink
and source temperatures can average to zero, which made the state equations
impossible to solve.
---
 src/engine/run.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/engine/run.rs b/src/engine/run.rs
index f6a3434..8ed5e73 100644
--- a/src/engine/run.rs
+++ b/src/engine/run.rs
@@ -33,10 +33,10 @@ impl<'a, T: Fluid, U: MatrixDecomposition> Run<'a, T, U> {
     /// Create an `Run` for a specific matrix solver
     #[allow(clippy::similar_names)]
     pub(super) fn new(components: &'a Components, state: &'a State<T>) -> Self {
-        // Calculate an average enthalpy using the sink and source temperatures
+        // Calculate an average enthalpy magnitude using the sink and source temperatures
         let h_sink = state.fluid.enth(state.temp.sink, state.pres.avg);
         let h_source = state.fluid.enth(state.temp.source, state.pres.avg);
-        let enth_norm = 0.5 * (h_sink + h_source);
+        let enth_norm = 0.5 * (h_sink.abs() + h_source.abs());
 
         // Ask heat exchanger components for their volumes
         let vol_chx = components.chx.volume();
-- 
2.43.0


From d6c0ab989e8e078f20effa6101f2c4951fd26615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:52 +0000
Subject: [PATCH 08/15] fix: don't discard the small singular values in the SVD
 solver

---
 src/state_equations/solver.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/state_equations/solver.rs b/src/state_equations/solver.rs
index ffaa885..e2fab41 100644
--- a/src/state_equations/solver.rs
+++ b/src/state_equations/solver.rs
@@ -232,7 +232,7 @@ impl MatrixDecomposition for Cholesky {
 pub struct SvdDefault;
 impl MatrixDecomposition for SvdDefault {
     fn solve(a: &Matrix, b: &Vector) -> Result<Vector> {
-        let eps = 1e-12;
+        let eps = 0.; // singular values scale with the engine, and the small ones are significant
         a.svd_unordered(true, true)
             .solve(b, eps)
             .map_err(|_| anyhow!("unable to solve matrix with SVD decomposition"))
-- 
2.43.0


From c6dd1d338c573291859391b196d0cc324f5db0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:58 +0000
Subject: [PATCH 09/15] fix: bound the number of iterations used to compute the
 SVD

---
 src/state_equations/solver.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/state_equations/solver.rs b/src/state_equations/solver.rs
index e2fab41..0e14106 100644
--- a/src/state_equations/solver.rs
+++ b/src/state_equations/solver.rs
@@ -229,11 +229,15 @@ impl MatrixDecomposition for Cholesky {
     }
 }
 
+// The maximum number of iterations used to compute the SVD before failing
+const MAX_SVD_ITERS: usize = 1000;
+
 pub struct SvdDefault;
 impl MatrixDecomposition for SvdDefault {
     fn solve(a: &Matrix, b: &Vector) -> Result<Vector> {
         let eps = 0.; // singular values scale with the engine, and the small ones are significant
-        a.svd_unordered(true, true)
+        a.try_svd_unordered(true, true, 5. * f64::EPSILON, MAX_SVD_ITERS)
+            .context("unable to compute SVD decomposition")?
             .solve(b, eps)
             .map_err(|_| anyhow!("unable to solve matrix with SVD decomposition"))
     }
-- 
2.43.0


From 3b946e03705fcffe90d131d01c37b2d1453897eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:41 +0000
Subject: [PATCH 10/15] fix: refine the solution found with the SVD

The SVD is only accurate relative to the largest terms in the matrix, whose
columns differ by many orders of magnitude.  Flows could be wrong by several
percent while the other solvers were accurate.
---
 src/state_equations/solver.rs | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/state_equations/solver.rs b/src/state_equations/solver.rs
index 0e14106..3924f37 100644
--- a/src/state_equations/solver.rs
+++ b/src/state_equations/solver.rs
@@ -232,14 +232,36 @@ impl MatrixDecomposition for Cholesky {
 // The maximum number of iterations used to compute the SVD before failing
 const MAX_SVD_ITERS: usize = 1000;
 
+// The maximum number of times a solution found with the SVD is refined
+const MAX_SVD_REFINEMENTS: usize = 10;
+
+// The residual allowed in each equation relative to the magnitude of its terms
+const SVD_RESIDUAL_TOL: f64 = 1e-10;
+
 pub struct SvdDefault;
 impl MatrixDecomposition for SvdDefault {
     fn solve(a: &Matrix, b: &Vector) -> Result<Vector> {
         let eps = 0.; // singular values scale with the engine, and the small ones are significant
-        a.try_svd_unordered(true, true, 5. * f64::EPSILON, MAX_SVD_ITERS)
-            .context("unable to compute SVD decomposition")?
-            .solve(b, eps)
-            .map_err(|_| anyhow!("unable to solve matrix with SVD decomposition"))
+        let svd = a
+            .try_svd_unordered(true, true, 5. * f64::EPSILON, MAX_SVD_ITERS)
+            .context("unable to compute SVD decomposition")?;
+        let solve = |b: &Vector| {
+            svd.solve(b, eps)
+                .map_err(|_| anyhow!("unable to solve matrix with SVD decomposition"))
+        };
+
+        // The SVD is only accurate relative to the largest terms in the matrix,
+        // so the solution is refined until it satisfies each of the equations
+        let mut x = solve(b)?;
+        for _ in 0..MAX_SVD_REFINEMENTS {
+            let residual = b - a * x;
+            let magnitude = b.abs() + a.abs() * x.abs();
+            if residual.abs() <= magnitude * SVD_RESIDUAL_TOL {
+                break;
+            }
+            x += solve(&residual)?;
+        }
+        Ok(x)
     }
 }
 
-- 
2.43.0


From dec71df2cc4999bc8406e355ef7a6c3f35dff29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:55 +0000
Subject: [PATCH 11/15] fix: scale the unknowns when the SVD is not accurate
 enough

---
 src/state_equations/solver.rs | 42 ++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/src/state_equations/solver.rs b/src/state_equations/solver.rs
index 3924f37..72bcb67 100644
--- a/src/state_equations/solver.rs
+++ b/src/state_equations/solver.rs
@@ -239,27 +239,49 @@ const MAX_SVD_REFINEMENTS: usize = 10;
 const SVD_RESIDUAL_TOL: f64 = 1e-10;
 
 pub struct SvdDefault;
-impl MatrixDecomposition for SvdDefault {
-    fn solve(a: &Matrix, b: &Vector) -> Result<Vector> {
+impl SvdDefault {
+    /// Compute the SVD of `a` and return a function that solves `Ax=b` with it
+    fn decompose(a: &Matrix) -> Result<impl Fn(&Vector) -> Result<Vector>> {
         let eps = 0.; // singular values scale with the engine, and the small ones are significant
         let svd = a
             .try_svd_unordered(true, true, 5. * f64::EPSILON, MAX_SVD_ITERS)
             .context("unable to compute SVD decomposition")?;
-        let solve = |b: &Vector| {
+        Ok(move |b: &Vector| {
             svd.solve(b, eps)
                 .map_err(|_| anyhow!("unable to solve matrix with SVD decomposition"))
-        };
+        })
+    }
+}
 
-        // The SVD is only accurate relative to the largest terms in the matrix,
-        // so the solution is refined until it satisfies each of the equations
-        let mut x = solve(b)?;
-        for _ in 0..MAX_SVD_REFINEMENTS {
+impl MatrixDecomposition for SvdDefault {
+    fn solve(a: &Matrix, b: &Vector) -> Result<Vector> {
+        let residual = |x: &Vector| {
             let residual = b - a * x;
             let magnitude = b.abs() + a.abs() * x.abs();
             if residual.abs() <= magnitude * SVD_RESIDUAL_TOL {
-                break;
+                None
+            } else {
+                Some(residual)
+            }
+        };
+
+        if let Ok(x) = Self::decompose(a).and_then(|solve| solve(b)) {
+            if residual(&x).is_none() {
+                return Ok(x);
+            }
+        }
+
+        // The SVD is only accurate relative to the largest terms in the matrix,
+        // so the unknowns are brought to a common scale and the solution is
+        // refined until it satisfies each of the equations
+        let scale = Vector::from_fn(|j, _| a.column(j).amax().recip());
+        let scaled_solve = Self::decompose(&(a * Matrix::from_diagonal(&scale)))?;
+        let mut x = scaled_solve(b)?.component_mul(&scale);
+        for _ in 0..MAX_SVD_REFINEMENTS {
+            match residual(&x) {
+                Some(residual) => x += scaled_solve(&residual)?.component_mul(&scale),
+                None => break,
             }
-            x += solve(&residual)?;
         }
         Ok(x)
     }
-- 
2.43.0


From 5313aeacd68e4ad068fda1fc34ce21109797c7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:53 +0000
Subject: [PATCH 12/15] fix: return an error for cycles without a finite period

---
 src/state_equations/integrator.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/state_equations/integrator.rs b/src/state_equations/integrator.rs
index 4f4c828..e8f7b94 100644
--- a/src/state_equations/integrator.rs
+++ b/src/state_equations/integrator.rs
@@ -28,6 +28,10 @@ impl<'a, T: Cycle> Integration<'a, T> {
         };
         let period = cycle.period();
         let dx = period / f64::from(num_points - 1);
+        ensure!(
+            dx.is_normal(),
+            "a cycle requires a finite period that can be divided into points"
+        );
         let y0 = StateVariables::new(
             initial_conditions.P,
             initial_conditions.T_c,
-- 
2.43.0


From f7c6068a91472fa157a08ff635c216b516604a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:53 +0000
Subject: [PATCH 13/15] fix: don't compute the SVD of matrices that aren't
 finite

---
 src/state_equations/solver.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/state_equations/solver.rs b/src/state_equations/solver.rs
index 72bcb67..040de14 100644
--- a/src/state_equations/solver.rs
+++ b/src/state_equations/solver.rs
@@ -1,4 +1,4 @@
-use anyhow::{anyhow, bail, Context, Result};
+use anyhow::{anyhow, bail, ensure, Context, Result};
 use na::{SMatrix, SVector};
 
 use super::{flow_direction::FlowDirection, Inputs, Solution};
@@ -255,6 +255,12 @@ impl SvdDefault {
 
 impl MatrixDecomposition for SvdDefault {
     fn solve(a: &Matrix, b: &Vector) -> Result<Vector> {
+        // The iterations used to compute the SVD only converge with finite values
+        ensure!(
+            a.iter().chain(b).all(|value| value.is_finite()),
+            "unable to solve matrix with SVD decomposition"
+        );
+
         let residual = |x: &Vector| {
             let residual = b - a * x;
             let magnitude = b.abs() + a.abs() * x.abs();
-- 
2.43.0


From 84ddd3a0e179a28c286874eca4cb1428c1738a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:48 +0000
Subject: [PATCH 14/15] fix: return an error if the state equations don't have
 a finite solution

---
 src/state_equations/solver.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/state_equations/solver.rs b/src/state_equations/solver.rs
index 040de14..53bc926 100644
--- a/src/state_equations/solver.rs
+++ b/src/state_equations/solver.rs
@@ -144,6 +144,10 @@ impl System {
     fn solve<T: MatrixDecomposition>(&self, flow_dir: FlowDirection) -> Result<Solution> {
         let a = self.stencil.create_matrix(flow_dir);
         let x = T::solve(&a, &self.b)?;
+        ensure!(
+            x.iter().all(|value| value.is_finite()),
+            "the state equations don't have a finite solution"
+        );
         Ok(Solution {
             m_dot_ck: x[0],
             m_dot_kr: x[1],
-- 
2.43.0


From 2460fbb4901f54b06a7e469b6843de8ff11d8339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:25 +0000
Subject: [PATCH 15/15] fix: read thermal resistances written as text in any
 field order

---
 src/types.rs               | 20 +++++++++++++++++++-
 src/ws/gpu3.rs             |  4 ++++
 src/ws/mod2.rs             |  4 +++-
 src/ws/rhombic_drive.rs    |  4 +++-
 src/ws/sinusoidal_drive.rs |  4 +++-
 5 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/types.rs b/src/types.rs
index 634de9e..e5b77aa 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -1,4 +1,4 @@
-use serde::Deserialize;
+use serde::{de::Error, Deserialize, Deserializer};
 
 pub const DEFAULT_MAX_ITERS: u32 = 20;
 
@@ -147,6 +147,24 @@ pub enum Material {
     StainlessSteel,
 }
 
+/// Deserialize a number that may also be written as text
+///
+/// An infinite value, such as the thermal resistance of an adiabatic space,
+/// can't be written as a number in formats like JSON.
+pub(crate) fn number_or_text<'de, D: Deserializer<'de>>(deserializer: D) -> Result<f64, D::Error> {
+    #[derive(Deserialize)]
+    #[serde(untagged)]
+    enum NumberOrText {
+        Number(f64),
+        Text(String),
+    }
+
+    match NumberOrText::deserialize(deserializer)? {
+        NumberOrText::Number(number) => Ok(number),
+        NumberOrText::Text(text) => text.parse().map_err(D::Error::custom),
+    }
+}
+
 impl OdeTolerance {
     #[must_use]
     pub fn new(abs: f64, rel: f64) -> Self {
diff --git a/src/ws/gpu3.rs b/src/ws/gpu3.rs
index 7c40832..c2cd046 100644
--- a/src/ws/gpu3.rs
+++ b/src/ws/gpu3.rs
@@ -1,5 +1,7 @@
 use serde::Deserialize;
 
+use crate::types::number_or_text;
+
 use super::{CompVolume, ExpVolume, Parasitics, State, ThermalResistance, WorkingSpaces};
 
 pub struct GPU3 {}
@@ -9,8 +11,10 @@ pub struct GPU3 {}
 pub struct Config {
     frequency: f64,
     V_clearance_c: f64,
+    #[serde(deserialize_with = "number_or_text")]
     R_c: f64,
     V_clearance_e: f64,
+    #[serde(deserialize_with = "number_or_text")]
     R_e: f64,
     r_crank: f64,
     L_conn: f64,
diff --git a/src/ws/mod2.rs b/src/ws/mod2.rs
index f37df22..514508d 100644
--- a/src/ws/mod2.rs
+++ b/src/ws/mod2.rs
@@ -1,6 +1,6 @@
 use serde::Deserialize;
 
-use crate::types::Material;
+use crate::types::{number_or_text, Material};
 
 use super::{CompVolume, ExpVolume, Parasitics, State, ThermalResistance, WorkingSpaces};
 
@@ -16,8 +16,10 @@ pub struct Config {
     L: f64,
     stroke: f64,
     V_clearance_c: f64,
+    #[serde(deserialize_with = "number_or_text")]
     R_c: f64,
     V_clearance_e: f64,
+    #[serde(deserialize_with = "number_or_text")]
     R_e: f64,
     material_p: Material,
     material_c: Material,
diff --git a/src/ws/rhombic_drive.rs b/src/ws/rhombic_drive.rs
index 68d1ab7..c0ec714 100644
--- a/src/ws/rhombic_drive.rs
+++ b/src/ws/rhombic_drive.rs
@@ -2,7 +2,7 @@ use std::f64::consts::PI;
 
 use serde::Deserialize;
 
-use crate::types::ParasiticPower;
+use crate::types::{number_or_text, ParasiticPower};
 
 use super::{CompVolume, ExpVolume, Parasitics, State, ThermalResistance, WorkingSpaces};
 
@@ -45,9 +45,11 @@ pub struct Geometry {
 pub struct Config {
     frequency: f64,
     V_clearance_c: f64,
+    #[serde(deserialize_with = "number_or_text")]
     R_c: f64,
     W_parasitic_c: f64,
     V_clearance_e: f64,
+    #[serde(deserialize_with = "number_or_text")]
     R_e: f64,
     W_parasitic_e: f64,
     Q_parasitic_e: f64,
diff --git a/src/ws/sinusoidal_drive.rs b/src/ws/sinusoidal_drive.rs
index 5a42f2a..0101465 100644
--- a/src/ws/sinusoidal_drive.rs
+++ b/src/ws/sinusoidal_drive.rs
@@ -2,7 +2,7 @@ use std::f64::consts::PI;
 
 use serde::Deserialize;
 
-use crate::types::ParasiticPower;
+use crate::types::{number_or_text, ParasiticPower};
 
 use super::{CompVolume, ExpVolume, Parasitics, State, ThermalResistance, WorkingSpaces};
 
@@ -27,10 +27,12 @@ pub struct Config {
     pub(crate) phase_angle: f64,
     pub(crate) V_swept_c: f64,
     pub(crate) V_clearance_c: f64,
+    #[serde(deserialize_with = "number_or_text")]
     pub(crate) R_c: f64,
     pub(crate) W_parasitic_c: f64,
     pub(crate) V_swept_e: f64,
     pub(crate) V_clearance_e: f64,
+    #[serde(deserialize_with = "number_or_text")]
     pub(crate) R_e: f64,
     pub(crate) W_parasitic_e: f64,
     pub(crate) Q_parasitic_e: f64,
-- 
2.43.0

