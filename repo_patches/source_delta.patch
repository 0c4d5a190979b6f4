From e27f2d9d46d56821f679dd55de66da602b46c9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:32 +0000
Subject: [PATCH 01/17] fix: read the Butcher tableau by row when building
 Runge-Kutta stages

The stage coefficients were looked up transposed (a[p][q] instead of a[q][p]).
The tableaus are strictly lower triangular, so every coefficient read was zero
and each method degenerated to forward Euler.
---
 src/time/rkf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time/rkf.rs b/src/time/rkf.rs
index 5055d85..33f119e 100644
--- a/src/time/rkf.rs
+++ b/src/time/rkf.rs
@@ -163,7 +163,7 @@ impl<P: Physics<E, S> + 'static, const E: usize, const S: usize> RungeKuttaFehlb
             for p in 0..q {
                 // PERF: This was benchmarked against using a raw index loop; performance diffs
                 // were within the error margins
-                self.utilde.cent.cons -= &(dt_out * self.bt.a[[p, q]] * &self.k_bundle.index_axis(Axis(0), p));
+                self.utilde.cent.cons -= &(dt_out * self.bt.a[[q, p]] * &self.k_bundle.index_axis(Axis(0), p));
             }
             rhs.update(&mut self.utilde, mesh)
                 .context("Calling rhs.update while calculating k_bundle in RungeKuttaFehlberg::calc_rkf_solution")?;
-- 
2.43.0


From 7e0c8fef6c82fdae407dc9bf82d432addcd0fad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:37 +0000
Subject: [PATCH 02/17] fix: guard the VanLeer limiter with the smallest
 positive float

f64::MIN is the most negative float (-1.8e308), not the smallest positive one,
so the slope was divided by about -1.8e308 and the reconstruction was piecewise
constant wherever the VanLeer limiter was selected.
---
 src/rhs/numflux/kt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rhs/numflux/kt.rs b/src/rhs/numflux/kt.rs
index a39499b..1e180f3 100644
--- a/src/rhs/numflux/kt.rs
+++ b/src/rhs/numflux/kt.rs
@@ -256,7 +256,7 @@ impl<const E: usize, const S: usize> Kt<E, S> {
             LimiterMode::VanLeer => |a: f64, b: f64, _: f64, _: f64| {
                 let abs_a = a.abs();
                 let abs_b = b.abs();
-                (a * abs_b + b * abs_a) / (abs_a + abs_b + f64::MIN)
+                (a * abs_b + b * abs_a) / (abs_a + abs_b + f64::MIN_POSITIVE)
             },
         };
         for j in 0..E {
-- 
2.43.0


From bf47371167918ba5f0289dd98b61001f844fe38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:02 +0000
Subject: [PATCH 03/17] fix: limit the CFL time step by the fastest signal in
 either direction

Only the largest eigenvalue v + c was considered, so for flow towards the west
the time step could exceed the CFL limit by an arbitrary factor (v = -c even
aborted the run with an infinite time step).
---
 src/state.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/state.rs b/src/state.rs
index 3d3809e..7c6bf4f 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -10,6 +10,7 @@ use crate::{
     boundaryconditions::BoundaryCondition, directions::Direction, errorhandling::Validation, Mesh, PhysicsConfig,
 };
 use color_eyre::Result;
+use ndarray::Zip;
 use std::marker::PhantomData;
 
 pub mod physics;
@@ -640,7 +641,11 @@ impl<P: Physics<E, S>, const E: usize, const S: usize> State<P, E, S> {
     /// * `c_cfl`: CFL safety parameter
     /// * `mesh`: The [Mesh] of the simulation
     pub fn calc_dt_cfl(&self, c_cfl: f64, mesh: &Mesh<S>) -> Result<f64> {
-        P::calc_dt_cfl(&self.cent.eigen_max(), c_cfl, mesh)
+        // The fastest signal may travel towards either end of the mesh
+        let max_speed = Zip::from(self.cent.eigen_min())
+            .and(self.cent.eigen_max())
+            .map_collect(|min, max| min.abs().max(max.abs()));
+        P::calc_dt_cfl(&max_speed.view(), c_cfl, mesh)
     }
 }
 
-- 
2.43.0


From 0268697dd61cfdefaae9df7e142e1c854c2b42e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:24 +0000
Subject: [PATCH 04/17] fix: run the physics specific checks when validating a
 State

Physics::validate (positive density and pressure) was never called, so a run
could carry on and report success with negative densities or pressures.
---
 src/state.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/state.rs b/src/state.rs
index 7c6bf4f..d22a84b 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -652,6 +652,7 @@ impl<P: Physics<E, S>, const E: usize, const S: usize> State<P, E, S> {
 impl<P: Physics<E, S>, const E: usize, const S: usize> Validation for State<P, E, S> {
     fn validate(&self) -> Result<()> {
         self.cent.validate()?;
+        P::validate(&self.cent)?;
         Ok(())
     }
 }
-- 
2.43.0


From 93bd4bcc629928c8b9f592dcf801a40ebe581713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:45 +0000
Subject: [PATCH 05/17] fix: truncate output files that are written from the
 start

Files left behind by an earlier, longer run kept their old tail behind the new
contents when the output folder is not cleared (scalar and vector outputs, and
the metadata JSON).
---
 src/writer/output.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/writer/output.rs b/src/writer/output.rs
index f32c762..6fc9735 100644
--- a/src/writer/output.rs
+++ b/src/writer/output.rs
@@ -184,6 +184,7 @@ impl Output {
                         let mut file = File::options()
                             .write(true)
                             .append(!self.first_output)
+                            .truncate(self.first_output)
                             .create(true)
                             .open(path)
                             .wrap_err_with(|| format!("Failed to open file: {}!", path.display()))?;
@@ -197,7 +198,7 @@ impl Output {
                         let path = Path::new(&full_path_string);
                         let mut file = File::options()
                             .write(true)
-                            .append(false)
+                            .truncate(true)
                             .create(true)
                             .open(path)
                             .wrap_err_with(|| format!("Failed to open file: {}!", path.display()))?;
@@ -270,7 +271,7 @@ impl Output {
                     let path = Path::new(&full_path_string);
                     let mut file = File::options()
                         .write(true)
-                        .append(false)
+                        .truncate(true)
                         .create(true)
                         .open(path)
                         .wrap_err_with(|| format!("Failed to open file: {}!", path.display()))?;
-- 
2.43.0


From c0c145d88452fee86b09c0fda0d636637c499305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:49 +0000
Subject: [PATCH 06/17] fix: hold the stdout lock while writing one output
 block

Outputs are written in parallel, and every cell was a separate write to stdout,
so two stdout outputs tore each other's rows apart.
---
 src/writer/output.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/writer/output.rs b/src/writer/output.rs
index 6fc9735..39baea3 100644
--- a/src/writer/output.rs
+++ b/src/writer/output.rs
@@ -208,7 +208,8 @@ impl Output {
                 };
             },
             StreamMode::Stdout => {
-                self.write_into_stream(&mut std::io::stdout())?;
+                // Outputs are written in parallel; hold the lock so that blocks of different outputs do not mix.
+                self.write_into_stream(&mut std::io::stdout().lock())?;
             },
         };
         self.first_output = false;
-- 
2.43.0


From 25b9e4225d09b7d39656c3c104f31e8c35d54528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:46 +0000
Subject: [PATCH 07/17] fix: never step past t_end, and do not stall before the
 first output

- the time of the next output was accumulated in floating point, so the last
  output could miss t_end by a rounding error; the run then took a full time
  step beyond t_end and wrote one output too many
- with output_counter_max = 0 nothing capped the time step at t_end at all
- calling Solver::next_solution directly after init_corries yielded dt = 0,
  because the next output was still due at t0
---
 src/components.rs    | 4 ++++
 src/time/timestep.rs | 8 +++++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/components.rs b/src/components.rs
index c0dd7f7..e0fa429 100644
--- a/src/components.rs
+++ b/src/components.rs
@@ -73,6 +73,10 @@ where
         loop {
             if solver.timestep.t >= solver.timestep.t_next_output - solver.timestep.dt_min {
                 solver.timestep.t_next_output += solver.timestep.dt_output;
+                // the rounding errors summed up in t_next_output may not move the last output away from t_end
+                if (solver.timestep.t_next_output - solver.timestep.t_end).abs() < 0.5 * solver.timestep.dt_output {
+                    solver.timestep.t_next_output = solver.timestep.t_end;
+                }
                 writer
                     .update_data(&u.cent, &solver.timestep, mesh)
                     .context("Calling writer.update_data_matrices in run_corries")?;
diff --git a/src/time/timestep.rs b/src/time/timestep.rs
index ac7136b..1fccb8e 100644
--- a/src/time/timestep.rs
+++ b/src/time/timestep.rs
@@ -147,11 +147,13 @@ impl TimeStep {
     }
 
     /// Caps the time step width to an upper limit, for example so that the time coordinate does
-    /// not exceed the point where the next output should be produced.
+    /// not exceed the point where the next output should be produced, or the end of the simulation.
     pub fn cap_dt(&mut self) {
         self.dt = self.dt.min(self.dt_max);
-        if (self.dt + self.t) / self.t_next_output > 1.0 {
-            self.dt = self.t_next_output - self.t;
+        for t_limit in [self.t_next_output, self.t_end] {
+            if t_limit > self.t && self.t + self.dt > t_limit {
+                self.dt = t_limit - self.t;
+            }
         }
     }
 }
-- 
2.43.0


From 76e26710c9400f25b1e6f1b12b54e3f9dbe58bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:58 +0000
Subject: [PATCH 08/17] fix: convert lengths and masses from SI to CGS

In SI mode the conversions to CGS returned the SI value unchanged.
---
 src/units.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/units.rs b/src/units.rs
index 1c794d2..c5f971e 100644
--- a/src/units.rs
+++ b/src/units.rs
@@ -73,11 +73,7 @@ impl Units {
 
     /// Takes the argument representing a length, and converts it to CGS units
     pub fn convert_length_to_cgs(&self, input: f64) -> f64 {
-        let si_input = self.convert_length_to_si(input);
-        match self.mode {
-            UnitsMode::SI => si_input,
-            UnitsMode::CGS => si_input / LENGTH_CGS,
-        }
+        self.convert_length_to_si(input) / LENGTH_CGS
     }
 
     /// Takes the argument representing a time, and converts it to CGS units
@@ -91,11 +87,7 @@ impl Units {
 
     /// Takes the argument representing a mass, and converts it to CGS units
     pub fn convert_mass_to_cgs(&self, input: f64) -> f64 {
-        let si_input = self.convert_mass_to_si(input);
-        match self.mode {
-            UnitsMode::SI => si_input,
-            UnitsMode::CGS => si_input / MASS_CGS,
-        }
+        self.convert_mass_to_si(input) / MASS_CGS
     }
 }
 
-- 
2.43.0


From 5d094418d79c72a493a860c89e03d3ea645aebc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:09 +0000
Subject: [PATCH 09/17] fix: scale the step control tolerance by the magnitude
 of the solution

The tolerance rel * (u + abs) shrank to zero (and changed sign) for negative
values of u, so flow towards the west was held to a different tolerance than the
mirrored flow, down to rejecting every step.
---
 src/time/rkf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time/rkf.rs b/src/time/rkf.rs
index 33f119e..c6d5f75 100644
--- a/src/time/rkf.rs
+++ b/src/time/rkf.rs
@@ -189,7 +189,7 @@ impl<P: Physics<E, S> + 'static, const E: usize, const S: usize> RungeKuttaFehlb
                 .and(&self.u_cons_low.slice(s))
                 .fold(0.0f64, |acc, ucons, ulow| {
                     acc.max(
-                        ((ucons - ulow) / (self.asc_relative_tolerance * (ucons + self.asc_absolute_tolerance))).abs(),
+                        ((ucons - ulow) / (self.asc_relative_tolerance * (ucons.abs() + self.asc_absolute_tolerance))).abs(),
                     )
                 });
 
-- 
2.43.0


From 5b282f3b2839dd0c0ec3518711bc5f3c2505ac43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:14 +0000
Subject: [PATCH 10/17] fix: abort when automated step control drives dt below
 dt_min

dt_min was only enforced for the CFL time step; the step control loop kept
shrinking dt without any lower limit.
---
 src/time/rkf.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/time/rkf.rs b/src/time/rkf.rs
index c6d5f75..7d44bc2 100644
--- a/src/time/rkf.rs
+++ b/src/time/rkf.rs
@@ -11,7 +11,7 @@ use crate::{
     TimeIntegrationConfig,
 };
 use color_eyre::{
-    eyre::{ensure, Context},
+    eyre::{bail, ensure, Context},
     Result,
 };
 use ndarray::{s, Array2, Array3, Axis, Zip};
@@ -116,6 +116,12 @@ impl<P: Physics<E, S> + 'static, const E: usize, const S: usize> TimeSolver<P, E
                 if self.err_new < 1.0 {
                     time.cap_dt();
                     self.solution_accepted = true;
+                } else if time.dt < time.dt_min {
+                    bail!(
+                        "Time step width dt dipped below dt_min! Got dt = {}, dt_min = {}",
+                        time.dt,
+                        time.dt_min
+                    );
                 }
                 self.n_asc += 1;
             }
-- 
2.43.0


From 6bb5353611e9a3e3bf556568d02138f996afacd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:19 +0000
Subject: [PATCH 11/17] fix: do not take a step of zero width when the error
 estimate vanishes

With err_new = 0 after err_old > 0 the PI controller evaluated
exp(-friction * ln(err_old / 0)) = 0 and accepted a step with dt = 0.
---
 src/time/rkf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time/rkf.rs b/src/time/rkf.rs
index 7d44bc2..1f247f7 100644
--- a/src/time/rkf.rs
+++ b/src/time/rkf.rs
@@ -215,7 +215,7 @@ impl<P: Physics<E, S> + 'static, const E: usize, const S: usize> RungeKuttaFehlb
                 // PI-Controller step: Controlled increase or decrease of the time step based on the error of the
                 // previous try-out. If the error was also > 0 in the last try-out, reduce it further and save
                 // in dt_new. Otherwise, leave it as is and save in dt_new.
-                let mut dt_new = if self.err_old > 0.0 {
+                let mut dt_new = if self.err_old > 0.0 && self.err_new > 0.0 {
                     dt_temp * (-1.0 * self.asc_timestep_friction * (self.err_old / self.err_new).ln()).exp()
                 } else {
                     dt_temp
-- 
2.43.0


From 950f068f86b15e5e8130871c2b5007e8dcaf3a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:36 +0000
Subject: [PATCH 12/17] fix: do not add an absolute epsilon to the cell volume

The inverse volume used 1 / (EPSILON + volume). The epsilon is not scaled with
the mesh, so on small length scales (cells of about 1e-12 and below) the flux
differences, and with them the results, depended on the unit of length.
---
 src/mesh.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh.rs b/src/mesh.rs
index 9dc91c0..7737406 100644
--- a/src/mesh.rs
+++ b/src/mesh.rs
@@ -308,7 +308,7 @@ impl<const S: usize> Mesh<S> {
         let area_west = &d_area_xi_deta_dphi_west * deta * dphi;
         let area_east = &d_area_xi_deta_dphi_east * deta * dphi;
         let volume = &sqrt_g * dxi * deta * dphi;
-        let deta_dphi_d_volume = deta * dphi / (f64::EPSILON + &volume);
+        let deta_dphi_d_volume = deta * dphi / &volume;
 
         let cell_width = &xi_east - &xi_west;
         let cell_width_inv = cell_width.mapv(f64::recip);
-- 
2.43.0


From 5d014732c4099e99c56ded886aacbca8d1920929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:58 +0000
Subject: [PATCH 13/17] fix: only share a solver between threads if its parts
 allow it

Rhs and Solver were unconditionally Send and Sync, although they own a user
supplied NumFlux and TimeSolver. Safe code could move, for example, an Rc into
another thread and race on its reference count.
---
 src/rhs.rs    | 4 ++--
 src/solver.rs | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/rhs.rs b/src/rhs.rs
index 5ccd119..7b9d475 100644
--- a/src/rhs.rs
+++ b/src/rhs.rs
@@ -34,8 +34,8 @@ pub struct Rhs<N: NumFlux<E, S>, const E: usize, const S: usize> {
     pub boundary_east: Box<dyn BoundaryCondition<E, S>>,
 }
 
-unsafe impl<N: NumFlux<E, S>, const E: usize, const S: usize> Send for Rhs<N, E, S> {}
-unsafe impl<N: NumFlux<E, S>, const E: usize, const S: usize> Sync for Rhs<N, E, S> {}
+unsafe impl<N: NumFlux<E, S> + Send, const E: usize, const S: usize> Send for Rhs<N, E, S> {}
+unsafe impl<N: NumFlux<E, S> + Sync, const E: usize, const S: usize> Sync for Rhs<N, E, S> {}
 
 impl<N: NumFlux<E, S>, const E: usize, const S: usize> Rhs<N, E, S> {
     /// Constructs a new [Rhs] object.
diff --git a/src/solver.rs b/src/solver.rs
index f35a08f..eadf138 100644
--- a/src/solver.rs
+++ b/src/solver.rs
@@ -30,15 +30,15 @@ pub struct Solver<P: Physics<E, S>, N: NumFlux<E, S>, T: TimeSolver<P, E, S>, co
 unsafe impl<P, N, T, const E: usize, const S: usize> Send for Solver<P, N, T, E, S>
 where
     P: Physics<E, S>,
-    N: NumFlux<E, S>,
-    T: TimeSolver<P, E, S>,
+    N: NumFlux<E, S> + Send,
+    T: TimeSolver<P, E, S> + Send,
 {
 }
 unsafe impl<P, N, T, const E: usize, const S: usize> Sync for Solver<P, N, T, E, S>
 where
     P: Physics<E, S>,
-    N: NumFlux<E, S>,
-    T: TimeSolver<P, E, S>,
+    N: NumFlux<E, S> + Sync,
+    T: TimeSolver<P, E, S> + Sync,
 {
 }
 
-- 
2.43.0


From 511c6f80188f283a3a85284cb0ac5ddac49c19a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:23 +0000
Subject: [PATCH 14/17] fix: reject output configs without any data

An empty list of data names passed validation and then panicked with an index
out of bounds when the first output was written.
---
 src/config/outputconfig.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/config/outputconfig.rs b/src/config/outputconfig.rs
index 8ac9bae..0c47a10 100644
--- a/src/config/outputconfig.rs
+++ b/src/config/outputconfig.rs
@@ -248,6 +248,7 @@ impl Validation for OutputConfig {
                 "When writing to a file, file_name may not be empty!"
             );
         }
+        ensure!(!self.data_names.is_empty(), "data_names may not be empty!");
         if self.string_conversion_mode == ToStringConversionMode::Scalar {
             for name in self.data_names.iter() {
                 ensure!(
-- 
2.43.0


From 01cb70700963defe2cce551eb6d787df9a48f81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:43 +0000
Subject: [PATCH 15/17] fix: notice invalid face states on both sides of a face
 in Kt

---
 src/rhs/numflux/kt.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rhs/numflux/kt.rs b/src/rhs/numflux/kt.rs
index 1e180f3..d232c15 100644
--- a/src/rhs/numflux/kt.rs
+++ b/src/rhs/numflux/kt.rs
@@ -14,9 +14,11 @@ use color_eyre::{
 };
 use ndarray::{par_azip, s, Array1, Array2};
 
+// These pass NaN on from either argument, so that an invalid state is noticed no matter which side of a cell face
+// it is on.
 macro_rules! min {
     ($a:expr, $b:expr) => {
-        if $a < $b {
+        if $a < $b || f64::is_nan($a) {
             $a
         } else {
             $b
@@ -25,7 +27,7 @@ macro_rules! min {
 }
 macro_rules! max {
     ($a:expr, $b:expr) => {
-        if $a > $b {
+        if $a > $b || f64::is_nan($a) {
             $a
         } else {
             $b
-- 
2.43.0


From a799c0eb506afc54a8fe66db961993d3b27abd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:00 +0000
Subject: [PATCH 16/17] fix: clear all output folders before creating any

---
 src/writer.rs        |  1 +
 src/writer/output.rs | 23 +++++++++++++++++++----
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index aefa32d..c8c798f 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -65,6 +65,7 @@ impl Writer {
     /// * `config` - Configuration for a corries simulation
     /// * `mesh` - The mesh for this simulation
     pub fn new<const S: usize>(config: &CorriesConfig, mesh: &Mesh<S>) -> Result<Self> {
+        config.writer_config.iter().try_for_each(Output::clear_out_folder)?;
         let mut outputs = vec![];
         for outputconf in config.writer_config.iter() {
             let output = Output::new(outputconf, mesh, config.output_counter_max)?;
diff --git a/src/writer/output.rs b/src/writer/output.rs
index 39baea3..0e46988 100644
--- a/src/writer/output.rs
+++ b/src/writer/output.rs
@@ -67,6 +67,25 @@ unsafe impl Send for Output {}
 unsafe impl Sync for Output {}
 
 impl Output {
+    /// Removes the output folder of an output that asks for it.
+    ///
+    /// This has to happen for all outputs before the first one is built, because the folder of one output may lie
+    /// inside the folder of another one.
+    ///
+    /// # Arguments
+    ///
+    /// * `outputconf` - `OutputConfig` naming the folder
+    pub fn clear_out_folder(outputconfig: &OutputConfig) -> Result<()> {
+        if outputconfig.stream_mode == StreamMode::File
+            && outputconfig.should_clear_out_folder
+            && Path::new(&outputconfig.folder_name).is_dir()
+        {
+            remove_dir_all(&outputconfig.folder_name)
+                .wrap_err_with(|| format!("Failed to remove directory {}", outputconfig.folder_name))?;
+        }
+        Ok(())
+    }
+
     /// Builds a new `color_eyre::Result<Output>` object.
     ///
     /// # Arguments
@@ -76,10 +95,6 @@ impl Output {
     /// * `output_counter_max` - How many distinct outputs should be written during this run
     pub fn new<const S: usize>(outputconfig: &OutputConfig, mesh: &Mesh<S>, output_counter_max: usize) -> Result<Self> {
         if let StreamMode::File = outputconfig.stream_mode {
-            if outputconfig.should_clear_out_folder && Path::new(&outputconfig.folder_name).is_dir() {
-                remove_dir_all(&outputconfig.folder_name)
-                    .wrap_err_with(|| format!("Failed to remove directory {}", outputconfig.folder_name))?;
-            }
             if !Path::new(&outputconfig.folder_name).is_dir() {
                 create_dir_all(&outputconfig.folder_name)
                     .wrap_err_with(|| format!("Failed to create directory {}", outputconfig.folder_name))?;
-- 
2.43.0


From e3dc99a4ffd1f05db9870781c74f3f04bea97c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:30 +0000
Subject: [PATCH 17/17] fix: report failures to write the banner or metadata to
 stdout instead of panicking

---
 src/config.rs        | 22 ++++++++++++++--------
 src/writer/output.rs |  2 +-
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index 15f3420..76dddfd 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -11,6 +11,7 @@ pub use numericsconfig::*;
 pub use outputconfig::*;
 pub use physicsconfig::*;
 use serde::Serialize;
+use std::io::Write;
 
 pub mod meshconfig;
 pub mod numericsconfig;
@@ -217,14 +218,19 @@ impl CorriesConfig {
         let mut writer = Writer::new::<S>(self, &mesh).context("Constructing Writer")?;
 
         if writer.print_banner {
-            println!("# ****************************************");
-            println!("# Corries - corrosive Riemann solver ");
-            println!("# ");
-            println!("# Version: {}", env!("CARGO_PKG_VERSION"));
-            println!("# Copyright (c) 2022-2023");
-            println!("# Author: tbreslein <github.com/tbreslein>");
-            println!("# License: MIT");
-            println!("# ****************************************");
+            writeln!(
+                std::io::stdout().lock(),
+                "# ****************************************\n\
+                # Corries - corrosive Riemann solver \n\
+                # \n\
+                # Version: {}\n\
+                # Copyright (c) 2022-2023\n\
+                # Author: tbreslein <github.com/tbreslein>\n\
+                # License: MIT\n\
+                # ****************************************",
+                env!("CARGO_PKG_VERSION")
+            )
+            .context("Writing the banner in CorriesConfig::init_corries")?;
         }
         writer
             .write_metadata::<S>()
diff --git a/src/writer/output.rs b/src/writer/output.rs
index 0e46988..82268e8 100644
--- a/src/writer/output.rs
+++ b/src/writer/output.rs
@@ -280,7 +280,7 @@ impl Output {
         if self.should_print_metadata {
             match self.stream_mode {
                 StreamMode::Stdout => {
-                    println!("{meta_data}");
+                    writeln!(std::io::stdout().lock(), "{meta_data}").wrap_err("Failed to write metadata to stdout!")?;
                 },
                 StreamMode::File => {
                     let full_path_string = self.file_name.clone() + "_metadata.json";
-- 
2.43.0

