From 9aa71977af5bc9ac65e161d28087a37400f23d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:12 +0000
Subject: [PATCH 01/12] Add verification hooks guarded by cfg(verif)

---
 sim/src/atmosphere/mod.rs   |  6 ++++++
 sim/src/config.rs           |  6 ++++++
 sim/src/integration/mod.rs  |  6 ++++++
 sim/src/lib.rs              | 13 +++++++++++++
 sim/src/phase.rs            |  6 ++++++
 sim/src/planet.rs           |  6 ++++++
 sim/src/state.rs            |  6 ++++++
 sim/src/steering.rs         |  6 ++++++
 sim/src/transformations.rs  |  6 ++++++
 sim/src/utils/tables/mod.rs |  6 ++++++
 sim/src/vehicle.rs          |  6 ++++++
 11 files changed, 73 insertions(+)

diff --git a/sim/src/atmosphere/mod.rs b/sim/src/atmosphere/mod.rs
index 515c5f9..1befa27 100644
--- a/sim/src/atmosphere/mod.rs
+++ b/sim/src/atmosphere/mod.rs
@@ -131,6 +131,12 @@ impl Atmosphere {
     }
 }
 
+#[cfg(verif)]
+#[allow(dead_code, unused_imports, non_snake_case)]
+pub(crate) mod verif_contracts {
+    include!(concat!(env!("VERIF_CONTRACTS"), "/atmosphere.rs"));
+}
+
 #[cfg(test)]
 mod tests {
     use crate::assert_almost_eq_rel;
diff --git a/sim/src/config.rs b/sim/src/config.rs
index b94f219..b6f2494 100644
--- a/sim/src/config.rs
+++ b/sim/src/config.rs
@@ -135,6 +135,12 @@ pub struct PhaseConfig {
     pub end_criterion: Option<(StateVariable, f64)>,
 }
 
+#[cfg(verif)]
+#[allow(dead_code, unused_imports, non_snake_case)]
+pub(crate) mod verif_contracts {
+    include!(concat!(env!("VERIF_CONTRACTS"), "/config.rs"));
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/sim/src/integration/mod.rs b/sim/src/integration/mod.rs
index a363e96..dd70298 100644
--- a/sim/src/integration/mod.rs
+++ b/sim/src/integration/mod.rs
@@ -56,3 +56,9 @@ impl Integrator {
         }
     }
 }
+
+#[cfg(verif)]
+#[allow(dead_code, unused_imports, non_snake_case)]
+pub(crate) mod verif_contracts {
+    include!(concat!(env!("VERIF_CONTRACTS"), "/integration.rs"));
+}
diff --git a/sim/src/lib.rs b/sim/src/lib.rs
index 7593ba7..cbdd3cb 100644
--- a/sim/src/lib.rs
+++ b/sim/src/lib.rs
@@ -9,6 +9,8 @@
 //! by the [`Simulation`] struct.
 //! The configuration is stored in the [`PhaseConfig`].
 
+#![allow(unexpected_cfgs)]
+
 mod atmosphere;
 mod config;
 mod example_data;
@@ -64,6 +66,17 @@ impl Simulation {
     }
 }
 
+#[cfg(verif)]
+#[allow(dead_code)]
+pub(crate) mod verif_rt {
+    include!(concat!(env!("VERIF_CONTRACTS"), "/rt.rs"));
+}
+#[cfg(verif)]
+#[allow(dead_code, unused_imports, non_snake_case)]
+pub(crate) mod verif_contracts {
+    include!(concat!(env!("VERIF_CONTRACTS"), "/simulation.rs"));
+}
+
 #[cfg(test)]
 mod tests {
     use crate::example_data::DATA_POINTS;
diff --git a/sim/src/phase.rs b/sim/src/phase.rs
index 964e3c5..d5fafbb 100644
--- a/sim/src/phase.rs
+++ b/sim/src/phase.rs
@@ -339,6 +339,12 @@ impl Phase {
     }
 }
 
+#[cfg(verif)]
+#[allow(dead_code, unused_imports, non_snake_case)]
+pub(crate) mod verif_contracts {
+    include!(concat!(env!("VERIF_CONTRACTS"), "/phase.rs"));
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/sim/src/planet.rs b/sim/src/planet.rs
index 5b6afce..6908f5d 100644
--- a/sim/src/planet.rs
+++ b/sim/src/planet.rs
@@ -152,6 +152,12 @@ impl Planet {
     }
 }
 
+#[cfg(verif)]
+#[allow(dead_code, unused_imports, non_snake_case)]
+pub(crate) mod verif_contracts {
+    include!(concat!(env!("VERIF_CONTRACTS"), "/planet.rs"));
+}
+
 #[cfg(test)]
 mod tests {
     use crate::assert_almost_eq_rel;
diff --git a/sim/src/state.rs b/sim/src/state.rs
index 0132f8a..30ca188 100644
--- a/sim/src/state.rs
+++ b/sim/src/state.rs
@@ -293,3 +293,9 @@ impl StateVariable {
         }
     }
 }
+
+#[cfg(verif)]
+#[allow(dead_code, unused_imports, non_snake_case)]
+pub(crate) mod verif_contracts {
+    include!(concat!(env!("VERIF_CONTRACTS"), "/state.rs"));
+}
diff --git a/sim/src/steering.rs b/sim/src/steering.rs
index 3f05d16..b789e96 100644
--- a/sim/src/steering.rs
+++ b/sim/src/steering.rs
@@ -76,6 +76,12 @@ impl Steering {
     }
 }
 
+#[cfg(verif)]
+#[allow(dead_code, unused_imports, non_snake_case)]
+pub(crate) mod verif_contracts {
+    include!(concat!(env!("VERIF_CONTRACTS"), "/steering.rs"));
+}
+
 #[cfg(test)]
 mod tests {
     use crate::assert_almost_eq_rel;
diff --git a/sim/src/transformations.rs b/sim/src/transformations.rs
index a0c438d..ccd0112 100644
--- a/sim/src/transformations.rs
+++ b/sim/src/transformations.rs
@@ -52,3 +52,9 @@ pub fn inertial_to_planet(time: f64, rotation_rate: f64) -> Rotation3<f64> {
                                 0.,                         0., 1.
     ])
 }
+
+#[cfg(verif)]
+#[allow(dead_code, unused_imports, non_snake_case)]
+pub(crate) mod verif_contracts {
+    include!(concat!(env!("VERIF_CONTRACTS"), "/transformations.rs"));
+}
diff --git a/sim/src/utils/tables/mod.rs b/sim/src/utils/tables/mod.rs
index 58b9b9e..29e693a 100644
--- a/sim/src/utils/tables/mod.rs
+++ b/sim/src/utils/tables/mod.rs
@@ -399,3 +399,9 @@ mod init {
         }
     }
 }
+
+#[cfg(verif)]
+#[allow(dead_code, unused_imports, non_snake_case)]
+pub(crate) mod verif_contracts {
+    include!(concat!(env!("VERIF_CONTRACTS"), "/tables.rs"));
+}
diff --git a/sim/src/vehicle.rs b/sim/src/vehicle.rs
index f3339b0..46e78da 100644
--- a/sim/src/vehicle.rs
+++ b/sim/src/vehicle.rs
@@ -229,6 +229,12 @@ impl Engine {
     }
 }
 
+#[cfg(verif)]
+#[allow(dead_code, unused_imports, non_snake_case)]
+pub(crate) mod verif_contracts {
+    include!(concat!(env!("VERIF_CONTRACTS"), "/vehicle.rs"));
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From dc7d2d5095ae9aa98047ad768d54503ba1b6b076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:45 +0000
Subject: [PATCH 02/12] fix: angle of attack for velocities not along the
 positive body axis

Vehicle::alpha returned 0 for every negative x velocity with non-positive z
and +-90 deg for other negative x velocities.
---
 sim/src/vehicle.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/sim/src/vehicle.rs b/sim/src/vehicle.rs
index 46e78da..0c601d1 100644
--- a/sim/src/vehicle.rs
+++ b/sim/src/vehicle.rs
@@ -101,14 +101,11 @@ impl Vehicle {
     /// Calculates the angle-of-attack. `velocity` should be the velocity with
     /// respect to the atmosphere in body frame.
     pub fn alpha(velocity: Vector3<f64>) -> f64 {
-        if velocity.x < NEARLY_ZERO {
-            if velocity.z < NEARLY_ZERO {
-                return 0.;
-            }
-            return velocity.z.signum() * PI / 2.;
+        if velocity.x.abs() < NEARLY_ZERO && velocity.z.abs() < NEARLY_ZERO {
+            return 0.;
         }
 
-        f64::atan(velocity.z / velocity.x)
+        f64::atan2(velocity.z, velocity.x)
     }
 
     /// Calculates the thrust force of the vehicle at the current throttle
-- 
2.43.0


From cce90fccfda65548bcdceac839fd806dac1e50a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:47 +0000
Subject: [PATCH 03/12] fix: an empty coefficient table does not cancel the
 other aerodynamic forces

A single empty table made the force components it enters NaN, which were then
replaced by zero together with the contribution of the other table.
---
 sim/src/vehicle.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sim/src/vehicle.rs b/sim/src/vehicle.rs
index 0c601d1..9092d88 100644
--- a/sim/src/vehicle.rs
+++ b/sim/src/vehicle.rs
@@ -175,9 +175,12 @@ impl Vehicle {
     /// coefficients are calculated with tables, which can take any state
     /// variable as input.
     pub fn aero_force(&self, state: &State) -> Vector3<f64> {
-        let cd = self.drag_coeff.at_state(state);
-        let cl = self.lift_coeff.at_state(state);
-        let cy = self.side_force_coeff.at_state(state);
+        // Empty tables (NANs) do not contribute
+        let coeff = |table: &Table| Some(table.at_state(state)).filter(|c| !c.is_nan());
+
+        let cd = coeff(&self.drag_coeff).unwrap_or(0.);
+        let cl = coeff(&self.lift_coeff).unwrap_or(0.);
+        let cy = coeff(&self.side_force_coeff).unwrap_or(0.);
 
         let ca = state.alpha.cos() * cd - state.alpha.sin() * cl;
         let cn = state.alpha.sin() * cd + state.alpha.cos() * cl;
-- 
2.43.0


From 50954cbaec1de70d17f44912ce7c8a9bffc3f549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:34 +0000
Subject: [PATCH 04/12] fix: geocentric latitude of the launch site

The geocentric latitude of the surface point with a given geodetic latitude
has tan(geodetic) / k as its tangent, k = (equatorial / polar radius)^2; it
was multiplied by k^2 instead.
---
 sim/src/phase.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim/src/phase.rs b/sim/src/phase.rs
index d5fafbb..2cc2fcf 100644
--- a/sim/src/phase.rs
+++ b/sim/src/phase.rs
@@ -317,7 +317,7 @@ impl Phase {
 
         let k = (self.planet.equatorial_radius / self.planet.polar_radius).powi(2);
 
-        let geocentric_lat = f64::atan(k.powi(2) * lat.tan());
+        let geocentric_lat = f64::atan(lat.tan() / k);
 
         self.launch = [geocentric_lat, long, az];
 
-- 
2.43.0


From cd7bce65f0b1475dc9996366ed01ba190ed9f487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:37 +0000
Subject: [PATCH 05/12] fix: start at the configured altitude

The altitude of the init configuration was ignored.
---
 sim/src/phase.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim/src/phase.rs b/sim/src/phase.rs
index 2cc2fcf..81425c5 100644
--- a/sim/src/phase.rs
+++ b/sim/src/phase.rs
@@ -324,7 +324,7 @@ impl Phase {
         let distance_to_surface =
             self.planet.equatorial_radius / f64::sqrt(1. + (k - 1.) * geocentric_lat.sin().powi(2));
 
-        self.state.position = distance_to_surface
+        self.state.position = (distance_to_surface + config.altitude)
             * vector![
                 geocentric_lat.cos() * long.cos(),
                 geocentric_lat.cos() * long.sin(),
-- 
2.43.0


From 656c056c35e7f08b42a76eced0d424c575884933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:38 +0000
Subject: [PATCH 06/12] fix: keep the configured step size when a phase is
 reset

Phase::reset restores base_stepsize, which the configuration never set.
---
 sim/src/phase.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sim/src/phase.rs b/sim/src/phase.rs
index 81425c5..6073db4 100644
--- a/sim/src/phase.rs
+++ b/sim/src/phase.rs
@@ -274,6 +274,7 @@ impl Phase {
         }
         if let Some(config) = config.stepsize {
             phase.stepsize = config;
+            phase.base_stepsize = config;
         }
         if let Some(config) = config.end_criterion {
             phase.end_criterion = config;
-- 
2.43.0


From e748dbf35a6091f1d722a9cd21c3dee40ba4aba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:01 +0000
Subject: [PATCH 07/12] fix: accept the documented planet model name
 fisher_1960

The derived snake_case name is fisher1960, which stays accepted.
---
 sim/src/config.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sim/src/config.rs b/sim/src/config.rs
index b6f2494..55bf216 100644
--- a/sim/src/config.rs
+++ b/sim/src/config.rs
@@ -25,6 +25,7 @@ pub enum PlanetConfig {
     Spherical,
     /// 1960 Fisher earth model (includes up to J2)
     /// See [`crate::planet`] for more information.
+    #[serde(rename = "fisher_1960", alias = "fisher1960")]
     Fisher1960,
     /// Smithsonian earth model (includes up to J4)
     /// See [`crate::planet`] for more information.
-- 
2.43.0


From f099d23d1ad849cc286bcde15a097fcd65d74c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:17 +0000
Subject: [PATCH 08/12] fix: base altitude of the 117.8 km atmosphere layer

396,406.39 ft made the temperature jump by 9 % and the pressure by 24 % at the
boundary; the layer starts at 386,406.39 ft.
---
 sim/src/atmosphere/standard_atmosphere_1962.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim/src/atmosphere/standard_atmosphere_1962.rs b/sim/src/atmosphere/standard_atmosphere_1962.rs
index f772d72..4e53e48 100644
--- a/sim/src/atmosphere/standard_atmosphere_1962.rs
+++ b/sim/src/atmosphere/standard_atmosphere_1962.rs
@@ -143,7 +143,7 @@ const STD_ATMOS_TABLE: [(f64, f64, f64, f64); 22] = [
         0.56867005e-2 * KELVIN_PER_RANKIN / METER_PER_FOOT,
     ),
     (
-        396_406.39 * METER_PER_FOOT,
+        386_406.39 * METER_PER_FOOT,
         0.52676024e-4 * PASCAL_PER_PSF,
         649.17 * KELVIN_PER_RANKIN,
         0.11443751e-1 * KELVIN_PER_RANKIN / METER_PER_FOOT,
-- 
2.43.0


From ec6a82c37c037ad9a152cad8f40ded025a6ccc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:18 +0000
Subject: [PATCH 09/12] fix: base pressure of the 146.5 km atmosphere layer

0.10566108e-4 psf made the pressure jump by 0.2 % at both ends of the layer.
---
 sim/src/atmosphere/standard_atmosphere_1962.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim/src/atmosphere/standard_atmosphere_1962.rs b/sim/src/atmosphere/standard_atmosphere_1962.rs
index 4e53e48..6ab0719 100644
--- a/sim/src/atmosphere/standard_atmosphere_1962.rs
+++ b/sim/src/atmosphere/standard_atmosphere_1962.rs
@@ -150,7 +150,7 @@ const STD_ATMOS_TABLE: [(f64, f64, f64, f64); 22] = [
     ),
     (
         480_781.04 * METER_PER_FOOT,
-        0.10566108e-4 * PASCAL_PER_PSF,
+        0.10586108e-4 * PASCAL_PER_PSF,
         1_729.17 * KELVIN_PER_RANKIN,
         0.86358208e-2 * KELVIN_PER_RANKIN / METER_PER_FOOT,
     ),
-- 
2.43.0


From b636fc8999bf374f7e4b73444c8e79c0f67aeefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:05 +0000
Subject: [PATCH 10/12] fix: build the transformations from their matrices
 exactly

Rotation3::from_matrix searches for the closest rotation iteratively and
stops at a wrong one for some half turns, e.g. for a launch site at latitude 0,
longitude 180 deg and azimuth -90 deg.
---
 sim/src/transformations.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sim/src/transformations.rs b/sim/src/transformations.rs
index ccd0112..1e818c1 100644
--- a/sim/src/transformations.rs
+++ b/sim/src/transformations.rs
@@ -11,7 +11,7 @@ use nalgebra::{matrix, Rotation3};
 ///
 /// Uses the geocentric latitude, longitude and azimuth in rad.
 pub fn inertial_to_launch(lat: f64, long: f64, az: f64) -> Rotation3<f64> {
-    Rotation3::from_matrix(&matrix![
+    Rotation3::from_matrix_unchecked(matrix![
                                        lat.cos()*long.cos(),                                lat.cos()*long.sin(),           lat.sin();
         lat.sin()*long.cos()*az.sin() - az.cos()*long.sin(), az.cos()*long.cos() + az.sin()*lat.sin()*long.sin(), -az.sin()*lat.cos();
        -az.sin()*long.sin() - az.cos()*lat.sin()*long.cos(), az.sin()*long.cos() - az.cos()*lat.sin()*long.sin(),  az.cos()*lat.cos()
@@ -22,7 +22,7 @@ pub fn inertial_to_launch(lat: f64, long: f64, az: f64) -> Rotation3<f64> {
 ///
 /// Uses the roll, yaw and pitch angles in rad.
 pub fn launch_to_body(roll: f64, yaw: f64, pitch: f64) -> Rotation3<f64> {
-    Rotation3::from_matrix(&matrix![
+    Rotation3::from_matrix_unchecked(matrix![
         yaw.cos()*pitch.cos(), roll.cos()*yaw.sin()*pitch.cos() + roll.sin()*pitch.sin(), roll.sin()*yaw.sin()*pitch.cos() - roll.cos()*pitch.sin();
                    -yaw.sin(),                                      roll.cos()*yaw.cos(),                                      roll.sin()*yaw.cos();
         yaw.cos()*pitch.sin(), roll.cos()*yaw.sin()*pitch.sin() - roll.sin()*pitch.cos(), roll.sin()*yaw.sin()*pitch.sin() + roll.cos()*pitch.cos()
@@ -46,7 +46,7 @@ pub fn inertial_to_body(launch: [f64; 3], euler_angles: [f64; 3]) -> Rotation3<f
 /// Uses the current simulation time in sec and the planet's rotation rate in
 /// rad/sec.
 pub fn inertial_to_planet(time: f64, rotation_rate: f64) -> Rotation3<f64> {
-    Rotation3::from_matrix(&matrix![
+    Rotation3::from_matrix_unchecked(matrix![
         (rotation_rate*time).cos(), (rotation_rate*time).sin(), 0.;
        -(rotation_rate*time).sin(), (rotation_rate*time).cos(), 0.;
                                 0.,                         0., 1.
-- 
2.43.0


From 79068567d758741e559ed5304ea6920a966c6622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:34 +0000
Subject: [PATCH 11/12] fix: end criterion is only overshot when the target is
 crossed

---
 sim/src/phase.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/sim/src/phase.rs b/sim/src/phase.rs
index 6073db4..3bec7f3 100644
--- a/sim/src/phase.rs
+++ b/sim/src/phase.rs
@@ -140,16 +140,22 @@ impl Phase {
 
     /// Checks whether the target value was overshot
     ///
-    /// It checks whether the value is increasing or decreasing over the last
-    /// time step and then checks whether the current value is above or below
-    /// the target value.
+    /// It checks whether the target value lies between the value before and
+    /// the value after the last time step. If the value already was at the
+    /// target before the step, any further change overshoots it. A value which
+    /// was beyond the target before does not cross it by moving further away.
     fn event_is_active(&self, old_state: &State, new_state: &State) -> bool {
-        if self.end_criterion.0.get_value(new_state) < self.end_criterion.0.get_value(old_state) {
-            // Function is going down, so check if function < target
-            self.end_criterion.0.get_value(new_state) < self.end_criterion.1
+        let y_t = self.end_criterion.0.get_value(old_state) - self.end_criterion.1;
+        let y_t_1 = self.end_criterion.0.get_value(new_state) - self.end_criterion.1;
+
+        if y_t.abs() < 1e-3 {
+            y_t_1 != y_t
+        } else if y_t > 0. {
+            // Function started above the target, so check if function < target
+            y_t_1 < 0.
         } else {
-            // Function is going up, check if function > target
-            self.end_criterion.0.get_value(new_state) > self.end_criterion.1
+            // Function started below the target, so check if function > target
+            y_t_1 > 0.
         }
     }
 
-- 
2.43.0


From 26591d7ffc5d82ee9c3f769c743cdd5170c78131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:27 +0000
Subject: [PATCH 12/12] Add verification hooks to the table deserialization,
 guarded by cfg(verif)

---
 sim/src/utils/tables/deserialization.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sim/src/utils/tables/deserialization.rs b/sim/src/utils/tables/deserialization.rs
index 1d907d1..2605004 100644
--- a/sim/src/utils/tables/deserialization.rs
+++ b/sim/src/utils/tables/deserialization.rs
@@ -167,3 +167,9 @@ mod tests {
         );
     }
 }
+
+#[cfg(verif)]
+#[allow(dead_code, unused_imports, non_snake_case)]
+pub(crate) mod verif_contracts {
+    include!(concat!(env!("VERIF_CONTRACTS"), "/deserialization.rs"));
+}
-- 
2.43.0

