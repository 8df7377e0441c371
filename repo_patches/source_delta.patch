From d2150bd9d6ee96880e4e08bd7b15bec85a66ce30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:28 +0000
Subject: [PATCH 01/11] fix: use the configured displacer diameter in the
 rhombic drive

The conversion from a rhombic drive config copied D_p into D_d, so the
configured displacer diameter had no effect on the expansion space.
---
 src/ws/rhombic_drive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ws/rhombic_drive.rs b/src/ws/rhombic_drive.rs
index 968d5af..68d1ab7 100644
--- a/src/ws/rhombic_drive.rs
+++ b/src/ws/rhombic_drive.rs
@@ -199,7 +199,7 @@ impl From<Config> for RhombicDrive {
             eccentricity: config.eccentricity,
             r_crank: config.r_crank,
             D_p: config.D_p,
-            D_d: config.D_p,
+            D_d: config.D_d,
             L_conn: config.L_conn,
         };
         let parasitics = Parasitics {
-- 
2.43.0


From 20c9e6193de00e3c6643eb6ed153e6bacc5e075e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:51 +0000
Subject: [PATCH 02/11] fix: return the state that belongs to the converged
 values

A run that converged kept the pressures, mass flows and heat flows of the
previous outer iteration.  An engine that converged on its first iteration
reported a constant pressure and zero mass and heat flows.
---
 src/engine/state.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/engine/state.rs b/src/engine/state.rs
index a899b36..fd0060b 100644
--- a/src/engine/state.rs
+++ b/src/engine/state.rs
@@ -114,8 +114,9 @@ impl<T: Fluid> State<T> {
     /// Return `self` updated from new `state_equations::Values`
     ///
     /// The updated `State` is returned as `Ok(self)`.  If the provided
-    /// `values` do not change the `State` within `tol`, then the original
-    /// `State` is returned as `Err(self)`.
+    /// `values` do not change the temperatures within `tol`, then the `State`
+    /// that corresponds to `values` is returned as `Err(self)`, which keeps
+    /// the temperatures that were used to calculate `values`.
     #[allow(clippy::result_large_err, clippy::similar_names)]
     pub fn update(
         self,
@@ -163,11 +164,8 @@ impl<T: Fluid> State<T> {
         // Check for temperature convergence
         // TODO: Do we want to check `pres`, `mass_flow`, and `heat_flow` for convergence as well?
         if self.temp.is_converged(new_temp, tol) {
-            // Temperatures are converged and we return `self` unchanged
-            Err(Self {
-                fluid: new_state.fluid,
-                ..self
-            })
+            // Temperatures are converged and we keep the ones used to calculate `values`
+            Err(new_state)
         } else {
             // Approach temperatures have changed and we return the new `State`
             Ok(Self {
-- 
2.43.0


From 42fe23a96101a527e17f3a306a7d4fa161350a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:20 +0000
Subject: [PATCH 03/11] fix: report unsolvable state equations as an error

A state equation that could not be solved during a run caused a panic (or an
endless SVD when its inputs were not finite) instead of the documented error.
A failed solve now rejects the integration step, and a run whose equations
can't be solved ends with RunError::InnerLoop.
---
 src/state_equations/cycle.rs      |  2 +-
 src/state_equations/integrator.rs | 25 +++++++++++++++++++------
 src/state_equations/solver.rs     |  6 ++++++
 3 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/state_equations/cycle.rs b/src/state_equations/cycle.rs
index 57f3bdc..6cbe3bc 100644
--- a/src/state_equations/cycle.rs
+++ b/src/state_equations/cycle.rs
@@ -52,7 +52,7 @@ pub trait Cycle: Sized {
             let integration = Integration::try_from(self, ic, 2, ode_tol)?; // using 2 points here is faster and doesn't affect integration
             if integration.is_converged(conv_tol) {
                 let integration = Integration::try_from(self, ic, num_points, ode_tol)?;
-                return Ok(integration.into_state_values());
+                return integration.try_into_state_values();
             }
             ic = Conditions {
                 P: pres_zero,
diff --git a/src/state_equations/integrator.rs b/src/state_equations/integrator.rs
index efffb33..ab00650 100644
--- a/src/state_equations/integrator.rs
+++ b/src/state_equations/integrator.rs
@@ -86,21 +86,29 @@ impl<'a, T: Cycle> Integration<'a, T> {
     /// Calculate state equation values at each point
     ///
     /// This function consumes the `Integration`.
+    #[cfg(test)]
     pub fn into_state_values(self) -> Vec<Values> {
+        self.try_into_state_values()
+            .expect("state equations should solve")
+    }
+
+    /// Attempt to calculate state equation values at each point
+    ///
+    /// This function consumes the `Integration`.
+    pub fn try_into_state_values(self) -> Result<Vec<Values>> {
         let mut flow_dir = FlowDirection::default();
         self.points
             .into_iter()
             .map(|point| {
                 let Point { time, conditions } = point;
                 let inputs = self.cycle.calculate_inputs(time, conditions);
-                let solution = solve::<T::Solver>(inputs, flow_dir)
-                    .expect("TODO: what do we do if this fails?");
+                let solution = solve::<T::Solver>(inputs, flow_dir)?;
                 flow_dir = FlowDirection::from_solution(&solution);
-                Values {
+                Ok(Values {
                     time,
                     conditions,
                     solution,
-                }
+                })
             })
             .collect()
     }
@@ -131,8 +139,13 @@ impl<T: Cycle> System<StateVariables> for IntegrationState<'_, T> {
         };
         let inputs = self.cycle.calculate_inputs(time, conditions);
         let flow_dir_hint = *self.last_flow_dir.borrow();
-        let solution = solve::<T::Solver>(inputs, flow_dir_hint)
-            .expect("TODO: what should we do if this fails?");
+        let Ok(solution) = solve::<T::Solver>(inputs, flow_dir_hint) else {
+            // The stepper can't be given an error, but it rejects any step with
+            // a derivative that is not a number and tries a smaller one.  The
+            // integration fails if that never helps.
+            dy.fill(f64::NAN);
+            return;
+        };
 
         let flow_dir = FlowDirection::from_solution(&solution);
         self.last_flow_dir.replace(flow_dir);
diff --git a/src/state_equations/solver.rs b/src/state_equations/solver.rs
index ffaa885..4d54158 100644
--- a/src/state_equations/solver.rs
+++ b/src/state_equations/solver.rs
@@ -143,7 +143,13 @@ impl System {
     /// Solve the system of equations
     fn solve<T: MatrixDecomposition>(&self, flow_dir: FlowDirection) -> Result<Solution> {
         let a = self.stencil.create_matrix(flow_dir);
+        if !a.iter().chain(self.b.iter()).all(|value| value.is_finite()) {
+            bail!("state equations are not finite");
+        }
         let x = T::solve(&a, &self.b)?;
+        if !x.iter().all(|value| value.is_finite()) {
+            bail!("solution is not finite");
+        }
         Ok(Solution {
             m_dot_ck: x[0],
             m_dot_kr: x[1],
-- 
2.43.0


From 90e2273f5949097ebf0e5307fe8ab9956e226bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:20 +0000
Subject: [PATCH 04/11] fix: don't discard small singular values in the SVD
 solver

The state equations are not scaled and their smallest singular value is
proportional to the volume of the engine.  The cutoff of 1e-12 removed it for
engines below roughly 10 cm^3, which made the SVD solver useless for them.
---
 src/state_equations/solver.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/state_equations/solver.rs b/src/state_equations/solver.rs
index 4d54158..ed9d5f9 100644
--- a/src/state_equations/solver.rs
+++ b/src/state_equations/solver.rs
@@ -238,7 +238,9 @@ impl MatrixDecomposition for Cholesky {
 pub struct SvdDefault;
 impl MatrixDecomposition for SvdDefault {
     fn solve(a: &Matrix, b: &Vector) -> Result<Vector> {
-        let eps = 1e-12;
+        // The smallest singular value is proportional to the engine volumes, so any
+        // absolute cutoff above zero discards the pressure of a small enough engine.
+        let eps = 0.0;
         a.svd_unordered(true, true)
             .solve(b, eps)
             .map_err(|_| anyhow!("unable to solve matrix with SVD decomposition"))
-- 
2.43.0


From 9773661a6a824ba92f53f202480ad562c8febacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:20 +0000
Subject: [PATCH 05/11] fix: always integrate to the end of the cycle

The output times accumulate round-off that grows with the period and with the
number of points.  The fixed allowance of 1e-14 s was too small for slow
engines, which dropped the last point of the cycle.  The convergence check of
a very slow engine then compared the first point with itself.
---
 src/state_equations/integrator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/state_equations/integrator.rs b/src/state_equations/integrator.rs
index ab00650..7b98c8f 100644
--- a/src/state_equations/integrator.rs
+++ b/src/state_equations/integrator.rs
@@ -35,7 +35,7 @@ impl<'a, T: Cycle> Integration<'a, T> {
         let mut stepper = Dopri5::new(
             state,
             0.0,
-            period + 1e-14, // TODO: https://github.com/isentropic-dev/sett-rs/issues/32
+            period * (1.0 + 1e-9), // round-off in the output times must not drop the last point
             dx,
             y0,
             tol.rel,
-- 
2.43.0


From 50ed6e3c810ba2806aa2d8cf4c61e77ea5c7a19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:22 +0000
Subject: [PATCH 06/11] fix: reject a resolution that can't span a cycle

A resolution of zero caused an arithmetic overflow and a resolution of one
returned an engine with a single point and averages that are not numbers.
---
 src/state_equations/integrator.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/state_equations/integrator.rs b/src/state_equations/integrator.rs
index 7b98c8f..798d47d 100644
--- a/src/state_equations/integrator.rs
+++ b/src/state_equations/integrator.rs
@@ -1,6 +1,6 @@
 use std::cell::RefCell;
 
-use anyhow::Result;
+use anyhow::{bail, Result};
 use ode_solvers::{Dopri5, System, Vector3};
 
 use crate::types::{ConvergenceTolerance, OdeTolerance};
@@ -21,6 +21,9 @@ impl<'a, T: Cycle> Integration<'a, T> {
         num_points: u32,
         tol: OdeTolerance,
     ) -> Result<Self> {
+        if num_points < 2 {
+            bail!("at least two points are needed to span a cycle");
+        }
         let state = IntegrationState {
             cycle,
             last_flow_dir: RefCell::new(FlowDirection::default()),
-- 
2.43.0


From 4cf8626c2d1bb20c2b4ddc02478d57d03d7d1095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:25 +0000
Subject: [PATCH 07/11] fix: include working space heat transfer in the energy
 balances

The heat flow between the gas in the working spaces and the heat exchangers
was part of the reported heat flows but not of the energy balances that are
integrated, so an engine with finite thermal resistances created energy.
---
 src/engine/run.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/engine/run.rs b/src/engine/run.rs
index e1b434b..4b4a37b 100644
--- a/src/engine/run.rs
+++ b/src/engine/run.rs
@@ -26,6 +26,7 @@ pub(super) struct Run<'a, T: Fluid, U: MatrixDecomposition> {
     vol_hhx: f64,
     vol_regen: f64,
     ws_parasitics: ws::Parasitics,
+    ws_thermal_res: ws::ThermalResistance,
     ws_vol_fn: Box<dyn Fn(f64) -> (ws::CompVolume, ws::ExpVolume)>,
 }
 
@@ -48,6 +49,7 @@ impl<'a, T: Fluid, U: MatrixDecomposition> Run<'a, T, U> {
         let period = 1.0 / components.ws.frequency(&ws_state);
         let ws_vol_fn = components.ws.volumes(&ws_state);
         let ws_parasitics = components.ws.parasitics(&ws_state);
+        let ws_thermal_res = components.ws.thermal_resistance(&ws_state);
 
         Self {
             enth_norm,
@@ -60,6 +62,7 @@ impl<'a, T: Fluid, U: MatrixDecomposition> Run<'a, T, U> {
             vol_hhx,
             vol_regen,
             ws_parasitics,
+            ws_thermal_res,
             ws_vol_fn,
         }
     }
@@ -75,7 +78,8 @@ impl<'a, T: Fluid, U: MatrixDecomposition> Run<'a, T, U> {
             du_dP_T: self.fluid.du_dP_T(temp, pres),
             du_dT_P: self.fluid.du_dT_P(temp, pres),
             dV_dt: vol.deriv,
-            Q_dot: self.ws_parasitics.comp.thermal,
+            Q_dot: self.ws_parasitics.comp.thermal
+                + (temp - self.temp.chx) / self.ws_thermal_res.comp,
         }
     }
 
@@ -127,7 +131,8 @@ impl<'a, T: Fluid, U: MatrixDecomposition> Run<'a, T, U> {
             du_dP_T: self.fluid.du_dP_T(temp, pres),
             du_dT_P: self.fluid.du_dT_P(temp, pres),
             dV_dt: vol.deriv,
-            Q_dot: self.ws_parasitics.exp.thermal,
+            Q_dot: self.ws_parasitics.exp.thermal
+                + (temp - self.temp.hhx) / self.ws_thermal_res.exp,
         }
     }
 }
-- 
2.43.0


From e269b261201ee7e3ec6cefd8835297dfd7bf6213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:05 +0000
Subject: [PATCH 08/11] hook: export MatrixDecomposition with cfg(sett_sim)

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index da77de5..f695c57 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)] // cfg(sett_sim) is only set by the simulator
+
 mod config;
 mod engine;
 mod performance;
@@ -16,6 +18,10 @@ pub use crate::config::{Config, Legacy};
 pub use engine::{Components, Engine};
 pub use state_equations::{LuSolver, QrSolver, SvdDefaultSolver};
 
+/// Simulation hook, which lets a simulator provide its own linear solver
+#[cfg(sett_sim)]
+pub use state_equations::MatrixDecomposition;
+
 pub use api::run_engine;
 
 /// An example of how to run an engine from a config
-- 
2.43.0


From 8be2e76687abec765078877e34424faa8c2bffed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:40 +0000
Subject: [PATCH 09/11] fix: refine inaccurate SVD solutions

The singular value decomposition of nalgebra occasionally is off by 1e-8 of the
largest matrix entry, which is several times the smallest singular value of the
state equations.  Mass flows were wrong by up to 30%.
---
 src/state_equations/solver.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/state_equations/solver.rs b/src/state_equations/solver.rs
index ed9d5f9..a2cbfec 100644
--- a/src/state_equations/solver.rs
+++ b/src/state_equations/solver.rs
@@ -9,6 +9,10 @@ type Vector = SVector<f64, 10>;
 // The maximum number of times flow directions can be updated before failing
 const ALLOWED_FLOW_UPDATES: usize = 3;
 
+// The accuracy required from, and the effort spent on, refining an SVD solution
+const REFINEMENT_TOL: f64 = 1e-9;
+const MAX_REFINEMENTS: usize = 10;
+
 /// Solve the state equations
 ///
 /// This function is generic over the decomposition function used to solve `Ax=b`.
@@ -241,9 +245,24 @@ impl MatrixDecomposition for SvdDefault {
         // The smallest singular value is proportional to the engine volumes, so any
         // absolute cutoff above zero discards the pressure of a small enough engine.
         let eps = 0.0;
-        a.svd_unordered(true, true)
-            .solve(b, eps)
-            .map_err(|_| anyhow!("unable to solve matrix with SVD decomposition"))
+        let svd = a.svd_unordered(true, true);
+        let solve = |b: &Vector| {
+            svd.solve(b, eps)
+                .map_err(|_| anyhow!("unable to solve matrix with SVD decomposition"))
+        };
+
+        // For some matrices the decomposition is off by far more than round-off,
+        // so refine the solution until it satisfies every equation.
+        let mut x = solve(b)?;
+        for _ in 0..MAX_REFINEMENTS {
+            let residual = b - a * x;
+            let scale = a.abs() * x.abs() + b.abs();
+            if residual.abs() <= scale * REFINEMENT_TOL {
+                break;
+            }
+            x += solve(&residual)?;
+        }
+        Ok(x)
     }
 }
 
-- 
2.43.0


From ce5cb6fefee6a6b5a448a6a9f2f87222d070e2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:06 +0000
Subject: [PATCH 10/11] fix: read infinite thermal resistances in any field
 order

The params of the legacy layout are buffered when they precede the model,
and "inf" was then refused.  With the config crate the order of the fields
is random, so reading the same file failed now and then.
---
 src/ws.rs                  | 42 +++++++++++++++++++++++++++++++++++++-
 src/ws/gpu3.rs             |  2 ++
 src/ws/mod2.rs             |  2 ++
 src/ws/rhombic_drive.rs    |  2 ++
 src/ws/sinusoidal_drive.rs |  2 ++
 5 files changed, 49 insertions(+), 1 deletion(-)

diff --git a/src/ws.rs b/src/ws.rs
index 6d017b4..84672f6 100644
--- a/src/ws.rs
+++ b/src/ws.rs
@@ -7,7 +7,7 @@ pub mod sinusoidal_drive;
 pub use gpu3::GPU3;
 pub use mod2::Mod2;
 pub use rhombic_drive::RhombicDrive;
-use serde::Deserialize;
+use serde::{de, Deserialize, Deserializer};
 pub use sinusoidal_drive::SinusoidalDrive;
 
 use crate::{engine::Pressure, types::ParasiticPower};
@@ -60,6 +60,46 @@ impl Default for ThermalResistance {
     }
 }
 
+/// Deserialize a thermal resistance (K/W), which is either a number or a
+/// string such as `"inf"` for formats that can't represent infinity
+///
+/// Whether a string ends up as a number must not depend on the deserializer:
+/// the params of a [`LegacyConfig`] get buffered when they come before the
+/// model, and then strings are no longer converted.
+fn deserialize_resistance<'de, D: Deserializer<'de>>(deserializer: D) -> Result<f64, D::Error> {
+    struct Visitor;
+
+    impl de::Visitor<'_> for Visitor {
+        type Value = f64;
+
+        fn expecting(&self, formatter: &mut std::fmt::Formatter) -> std::fmt::Result {
+            formatter.write_str("a number or a string containing a number")
+        }
+
+        fn visit_f64<E: de::Error>(self, value: f64) -> Result<f64, E> {
+            Ok(value)
+        }
+
+        #[allow(clippy::cast_precision_loss)]
+        fn visit_i64<E: de::Error>(self, value: i64) -> Result<f64, E> {
+            Ok(value as f64)
+        }
+
+        #[allow(clippy::cast_precision_loss)]
+        fn visit_u64<E: de::Error>(self, value: u64) -> Result<f64, E> {
+            Ok(value as f64)
+        }
+
+        fn visit_str<E: de::Error>(self, value: &str) -> Result<f64, E> {
+            value
+                .parse()
+                .map_err(|_| E::invalid_value(de::Unexpected::Str(value), &self))
+        }
+    }
+
+    deserializer.deserialize_any(Visitor)
+}
+
 /// Parasitic power (W) related to the two spaces
 #[derive(Debug, Clone, Copy, Default)]
 pub struct Parasitics {
diff --git a/src/ws/gpu3.rs b/src/ws/gpu3.rs
index 7c40832..67bb1a2 100644
--- a/src/ws/gpu3.rs
+++ b/src/ws/gpu3.rs
@@ -9,8 +9,10 @@ pub struct GPU3 {}
 pub struct Config {
     frequency: f64,
     V_clearance_c: f64,
+    #[serde(deserialize_with = "super::deserialize_resistance")]
     R_c: f64,
     V_clearance_e: f64,
+    #[serde(deserialize_with = "super::deserialize_resistance")]
     R_e: f64,
     r_crank: f64,
     L_conn: f64,
diff --git a/src/ws/mod2.rs b/src/ws/mod2.rs
index f37df22..e354e3b 100644
--- a/src/ws/mod2.rs
+++ b/src/ws/mod2.rs
@@ -16,8 +16,10 @@ pub struct Config {
     L: f64,
     stroke: f64,
     V_clearance_c: f64,
+    #[serde(deserialize_with = "super::deserialize_resistance")]
     R_c: f64,
     V_clearance_e: f64,
+    #[serde(deserialize_with = "super::deserialize_resistance")]
     R_e: f64,
     material_p: Material,
     material_c: Material,
diff --git a/src/ws/rhombic_drive.rs b/src/ws/rhombic_drive.rs
index 68d1ab7..5a5f963 100644
--- a/src/ws/rhombic_drive.rs
+++ b/src/ws/rhombic_drive.rs
@@ -45,9 +45,11 @@ pub struct Geometry {
 pub struct Config {
     frequency: f64,
     V_clearance_c: f64,
+    #[serde(deserialize_with = "super::deserialize_resistance")]
     R_c: f64,
     W_parasitic_c: f64,
     V_clearance_e: f64,
+    #[serde(deserialize_with = "super::deserialize_resistance")]
     R_e: f64,
     W_parasitic_e: f64,
     Q_parasitic_e: f64,
diff --git a/src/ws/sinusoidal_drive.rs b/src/ws/sinusoidal_drive.rs
index 5a42f2a..84c4b39 100644
--- a/src/ws/sinusoidal_drive.rs
+++ b/src/ws/sinusoidal_drive.rs
@@ -27,10 +27,12 @@ pub struct Config {
     pub(crate) phase_angle: f64,
     pub(crate) V_swept_c: f64,
     pub(crate) V_clearance_c: f64,
+    #[serde(deserialize_with = "super::deserialize_resistance")]
     pub(crate) R_c: f64,
     pub(crate) W_parasitic_c: f64,
     pub(crate) V_swept_e: f64,
     pub(crate) V_clearance_e: f64,
+    #[serde(deserialize_with = "super::deserialize_resistance")]
     pub(crate) R_e: f64,
     pub(crate) W_parasitic_e: f64,
     pub(crate) Q_parasitic_e: f64,
-- 
2.43.0


From 37218004efedec5ec0aa2889c51afa00a5803b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:26 +0000
Subject: [PATCH 11/11] fix: scale the equations when an SVD solution is
 inaccurate

Refining with a decomposition that lost the smallest singular value doesn't
get any better.  A solution that never satisfies the equations is an error.
---
 src/state_equations/solver.rs | 60 +++++++++++++++++++++++++++--------
 1 file changed, 46 insertions(+), 14 deletions(-)

diff --git a/src/state_equations/solver.rs b/src/state_equations/solver.rs
index a2cbfec..62fef8b 100644
--- a/src/state_equations/solver.rs
+++ b/src/state_equations/solver.rs
@@ -245,25 +245,57 @@ impl MatrixDecomposition for SvdDefault {
         // The smallest singular value is proportional to the engine volumes, so any
         // absolute cutoff above zero discards the pressure of a small enough engine.
         let eps = 0.0;
-        let svd = a.svd_unordered(true, true);
-        let solve = |b: &Vector| {
-            svd.solve(b, eps)
-                .map_err(|_| anyhow!("unable to solve matrix with SVD decomposition"))
-        };
-
-        // For some matrices the decomposition is off by far more than round-off,
-        // so refine the solution until it satisfies every equation.
-        let mut x = solve(b)?;
+        // For some matrices the decomposition is off by far more than round-off, or
+        // its smallest singular values are lost next to the largest.  Then scale the
+        // rows and columns, and refine the solution until it satisfies every equation.
+        let x = a
+            .svd_unordered(true, true)
+            .solve(b, eps)
+            .map_err(|_| anyhow!("unable to solve matrix with SVD decomposition"))?;
+        if is_solution(a, b, &x) {
+            return Ok(x);
+        }
+        let (scaled, rows, cols) = equilibrate(a);
+        let svd = scaled.svd_unordered(true, true);
+        let mut x = Vector::zeros();
         for _ in 0..MAX_REFINEMENTS {
             let residual = b - a * x;
-            let scale = a.abs() * x.abs() + b.abs();
-            if residual.abs() <= scale * REFINEMENT_TOL {
-                break;
+            let correction = svd
+                .solve(&residual.component_mul(&rows), eps)
+                .map_err(|_| anyhow!("unable to solve matrix with SVD decomposition"))?;
+            x += correction.component_mul(&cols);
+            if is_solution(a, b, &x) {
+                return Ok(x);
             }
-            x += solve(&residual)?;
         }
-        Ok(x)
+        bail!("unable to solve matrix with SVD decomposition")
+    }
+}
+
+/// Whether `x` satisfies every equation of `Ax=b` to within [`REFINEMENT_TOL`]
+fn is_solution(a: &Matrix, b: &Vector, x: &Vector) -> bool {
+    let residual = b - a * x;
+    let scale = a.abs() * x.abs() + b.abs();
+    residual.abs() <= scale * REFINEMENT_TOL
+}
+
+/// Scale the rows and columns of a matrix to a largest element of about one
+///
+/// Returns the scaled matrix and the factors applied to its rows and columns.
+fn equilibrate(a: &Matrix) -> (Matrix, Vector, Vector) {
+    let factor = |max: f64| if max > 0.0 { 1.0 / max } else { 1.0 };
+    let mut scaled = *a;
+    let mut rows = Vector::repeat(1.0);
+    let mut cols = Vector::repeat(1.0);
+    for (mut row, scale) in scaled.row_iter_mut().zip(rows.iter_mut()) {
+        *scale = factor(row.amax());
+        row *= *scale;
+    }
+    for (mut col, scale) in scaled.column_iter_mut().zip(cols.iter_mut()) {
+        *scale = factor(col.amax());
+        col *= *scale;
     }
+    (scaled, rows, cols)
 }
 
 #[cfg(test)]
-- 
2.43.0

