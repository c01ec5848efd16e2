From 4820d2b20cfe47723955390ff7686af41f059373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:09 +0000
Subject: [PATCH 01/23] Guarded hooks for an external verification harness

---
 src/io/mod.rs              | 4 ++++
 src/lib.rs                 | 4 ++++
 src/quadtree/mod.rs        | 4 ++++
 src/sweep/direction/mod.rs | 4 ++++
 src/sweep/mod.rs           | 4 ++++
 src/voronoi/mod.rs         | 4 ++++
 6 files changed, 24 insertions(+)

diff --git a/src/io/mod.rs b/src/io/mod.rs
index 32e35e1..3eb5c86 100644
--- a/src/io/mod.rs
+++ b/src/io/mod.rs
@@ -100,3 +100,7 @@ impl<T> std::ops::Deref for OutputDatasetDescriptor<T> {
         &self.descriptor
     }
 }
+
+// Access for an external verification harness; compiled only with `--cfg subsweep_verif`.
+#[cfg(subsweep_verif)]
+include!(concat!(env!("SUBSWEEP_VERIF_HOOKS"), "/io.rs"));
diff --git a/src/lib.rs b/src/lib.rs
index c101dd2..68532ee 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -55,3 +55,7 @@ mod named {
 pub(crate) mod test_examples;
 #[cfg(test)]
 pub(crate) mod test_utils;
+
+// Access for an external verification harness; compiled only with `--cfg subsweep_verif`.
+#[cfg(subsweep_verif)]
+include!(concat!(env!("SUBSWEEP_VERIF_HOOKS"), "/root.rs"));
diff --git a/src/quadtree/mod.rs b/src/quadtree/mod.rs
index 6e8b287..8790980 100644
--- a/src/quadtree/mod.rs
+++ b/src/quadtree/mod.rs
@@ -119,6 +119,10 @@ impl<N: NodeDataType<L>, L: LeafDataType> QuadTree<N, L> {
     }
 }
 
+// Access for an external verification harness; compiled only with `--cfg subsweep_verif`.
+#[cfg(subsweep_verif)]
+include!(concat!(env!("SUBSWEEP_VERIF_HOOKS"), "/quadtree.rs"));
+
 #[cfg(test)]
 pub mod tests {
     use super::*;
diff --git a/src/sweep/direction/mod.rs b/src/sweep/direction/mod.rs
index 6b9dfd6..4d9f362 100644
--- a/src/sweep/direction/mod.rs
+++ b/src/sweep/direction/mod.rs
@@ -209,6 +209,10 @@ pub(super) fn init_directions_rng(sim: &mut Simulation) {
     sim.insert_resource(DirectionsRng(StdRng::seed_from_u64(DIRECTIONS_RNG_SEED)));
 }
 
+// Access for an external verification harness; compiled only with `--cfg subsweep_verif`.
+#[cfg(subsweep_verif)]
+include!(concat!(env!("SUBSWEEP_VERIF_HOOKS"), "/direction.rs"));
+
 #[cfg(test)]
 mod tests {
     use rand::rngs::StdRng;
diff --git a/src/sweep/mod.rs b/src/sweep/mod.rs
index a66d17d..9cdafbf 100644
--- a/src/sweep/mod.rs
+++ b/src/sweep/mod.rs
@@ -802,3 +802,7 @@ fn show_num_directions_system(
 ) {
     performance_data.record_number("num_sweep_directions", parameters.directions.num());
 }
+
+// Access for an external verification harness; compiled only with `--cfg subsweep_verif`.
+#[cfg(subsweep_verif)]
+include!(concat!(env!("SUBSWEEP_VERIF_HOOKS"), "/sweep.rs"));
diff --git a/src/voronoi/mod.rs b/src/voronoi/mod.rs
index 33a54e5..8255599 100644
--- a/src/voronoi/mod.rs
+++ b/src/voronoi/mod.rs
@@ -45,6 +45,10 @@ where
     }
 }
 
+// Access for an external verification harness; compiled only with `--cfg subsweep_verif`.
+#[cfg(subsweep_verif)]
+include!(concat!(env!("SUBSWEEP_VERIF_HOOKS"), "/voronoi.rs"));
+
 #[cfg(test)]
 #[generic_tests::define]
 mod tests {
-- 
2.43.0


From a97ffa826f899751fbdb1610129e9221463d4817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:01 +0000
Subject: [PATCH 02/23] fix: gathering empty lists of byte-sized values aborts
 in MPI_Allgatherv

---
 src/communication/mpi_world.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/communication/mpi_world.rs b/src/communication/mpi_world.rs
index 21907c7..c93e249 100644
--- a/src/communication/mpi_world.rs
+++ b/src/communication/mpi_world.rs
@@ -235,6 +235,11 @@ where
 
     fn all_gather_varcount_with_counts(&mut self, send: &[S], counts: &[Count]) -> Vec<S> {
         self.verify_tag();
+        // The dangling pointer of an empty buffer of byte-sized values is
+        // indistinguishable from MPI_IN_PLACE, which is not a valid receive buffer.
+        if counts.iter().all(|count| *count == 0) {
+            return vec![];
+        }
         let mut result_buffer: Vec<S> =
             unsafe { get_buffer(counts.iter().map(|x| *x as usize).sum()) };
         let displacements: Vec<Count> = counts
-- 
2.43.0


From 1c6d47ffd54c975a158645b6a161c3489574426b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:39 +0000
Subject: [PATCH 03/23] fix: triangulating in a box that is not cubic tests for
 circumspheres in stretched coordinates

remap_point scaled every axis by its own side length. The in-circle and
in-sphere tests are not invariant under that, so that for a box that is not a
cube, the result was not a Delaunay triangulation of the points.
---
 src/dimension.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dimension.rs b/src/dimension.rs
index 28d4ce3..1bee26f 100644
--- a/src/dimension.rs
+++ b/src/dimension.rs
@@ -43,7 +43,7 @@ impl Dimension for TwoD {
     type WrapType = PeriodicWrapType2d;
     fn remap_point(point: Point<Self>, extent: &Extent<Point<Self>>) -> Point<Self> {
         debug_assert!(extent.contains(&point));
-        MVec2::new(1.0, 1.0) + (point - extent.min) * (1.0 / extent.side_lengths())
+        MVec2::new(1.0, 1.0) + (point - extent.min) * (1.0 / extent.max_side_length())
     }
 }
 
@@ -55,7 +55,7 @@ impl Dimension for ThreeD {
     type WrapType = PeriodicWrapType3d;
     fn remap_point(point: Point<Self>, extent: &Extent<Point<Self>>) -> Point<Self> {
         debug_assert!(extent.contains(&point));
-        MVec3::new(1.0, 1.0, 1.0) + (point - extent.min) * (1.0 / extent.side_lengths())
+        MVec3::new(1.0, 1.0, 1.0) + (point - extent.min) * (1.0 / extent.max_side_length())
     }
 }
 
-- 
2.43.0


From 6dd782a7a911a4abffc65a71ccd38ec272c41d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:25 +0000
Subject: [PATCH 04/23] fix: rate changes do not reach inactive cells on other
 ranks

With more than one timestep level, a cell that is solved between two timesteps
of a neighbour on another rank drops the change of its outgoing rate, but counts
it as sent. Local neighbours get it. The lost change never arrives, so that
photons are created or destroyed depending on the domain decomposition.
---
 src/sweep/mod.rs | 53 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 35 insertions(+), 18 deletions(-)

diff --git a/src/sweep/mod.rs b/src/sweep/mod.rs
index 9cdafbf..76ea456 100644
--- a/src/sweep/mod.rs
+++ b/src/sweep/mod.rs
@@ -383,6 +383,27 @@ impl<C: Chemistry> Sweep<C> {
             }
             self.sites.get_mut(id).num_missing_upwind = num_missing_upwind;
         }
+        // Inactive cells are not solved, but the rates that arrive in them
+        // from active cells change nonetheless, so those are sent too.
+        for (id, _, cell) in self.cells.enumerate_with_levels() {
+            if self.is_active(id) {
+                continue;
+            }
+            for (face, neighbour) in cell.neighbours.iter() {
+                let (neighbour_id, rank) = match neighbour {
+                    ParticleType::Remote(neighbour) => (neighbour.id, neighbour.rank),
+                    ParticleType::RemotePeriodic(neighbour) => (neighbour.id, neighbour.rank),
+                    _ => continue,
+                };
+                if self.is_active(neighbour_id) {
+                    self.to_receive_count[rank] += self
+                        .directions
+                        .enumerate()
+                        .filter(|(_, dir)| face.points_upwind(dir))
+                        .count();
+                }
+            }
+        }
     }
 
     fn get_initial_tasks(&self) -> PriorityQueue<Task> {
@@ -518,15 +539,13 @@ impl<C: Chemistry> Sweep<C> {
         rate_correction: Rate<C>,
         remote: &RemoteNeighbour,
     ) {
-        if self.is_active(remote.id) {
-            let rate_data = RateData {
-                dir: task.dir,
-                rate: rate_correction,
-                id: remote.id,
-                periodic: false,
-            };
-            self.to_send[remote.rank].push(rate_data);
-        }
+        let rate_data = RateData {
+            dir: task.dir,
+            rate: rate_correction,
+            id: remote.id,
+            periodic: false,
+        };
+        self.to_send[remote.rank].push(rate_data);
     }
 
     fn handle_remote_periodic_neighbour(
@@ -535,15 +554,13 @@ impl<C: Chemistry> Sweep<C> {
         rate_correction: Rate<C>,
         neighbour: &RemotePeriodicNeighbour,
     ) {
-        if self.is_active(neighbour.id) {
-            let rate_data = RateData {
-                dir: task.dir,
-                rate: rate_correction,
-                id: neighbour.id,
-                periodic: true,
-            };
-            self.to_send[neighbour.rank].push(rate_data);
-        }
+        let rate_data = RateData {
+            dir: task.dir,
+            rate: rate_correction,
+            id: neighbour.id,
+            periodic: true,
+        };
+        self.to_send[neighbour.rank].push(rate_data);
     }
 
     fn update_chemistry(&mut self, timers: &mut Performance) {
-- 
2.43.0


From 42467629eea69602818470e8f45f2485afbed26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:16 +0000
Subject: [PATCH 05/23] fix: the deadlock check itself deadlocks if a rank has
 no active cells

It returned before the collective sum that the other ranks wait for.
---
 src/sweep/deadlock_detection.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/sweep/deadlock_detection.rs b/src/sweep/deadlock_detection.rs
index 7e5d856..afbdbf1 100644
--- a/src/sweep/deadlock_detection.rs
+++ b/src/sweep/deadlock_detection.rs
@@ -84,10 +84,6 @@ impl<C: Chemistry> Sweep<C> {
     }
 
     fn check_some_initial_task_exists(&self) {
-        let num_to_solve = self.cells.enumerate_active(self.current_level).count();
-        if num_to_solve == 0 {
-            return;
-        }
         let num_initial_tasks = self.to_solve.len();
         let mut ex = MpiWorld::new_custom_tag(DEADLOCK_DETECTION_TAG);
         let total: usize = ex.all_gather_sum(&num_initial_tasks);
-- 
2.43.0


From 363b4ebc6e776fa91cca20c5119c762807b85f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:17 +0000
Subject: [PATCH 06/23] Guarded hooks for an external verification harness:
 chemistry

---
 src/chemistry/hydrogen_only/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/chemistry/hydrogen_only/mod.rs b/src/chemistry/hydrogen_only/mod.rs
index ede3c1d..541d3d5 100644
--- a/src/chemistry/hydrogen_only/mod.rs
+++ b/src/chemistry/hydrogen_only/mod.rs
@@ -460,6 +460,10 @@ where
     }
 }
 
+// Access for an external verification harness; compiled only with `--cfg subsweep_verif`.
+#[cfg(subsweep_verif)]
+include!(concat!(env!("SUBSWEEP_VERIF_HOOKS"), "/chemistry.rs"));
+
 #[cfg(not(feature = "2d"))]
 #[cfg(test)]
 mod tests {
-- 
2.43.0


From 3817afa40f10d7471a7d5d2bfee866f66367b237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:27 +0000
Subject: [PATCH 07/23] fix: gas that is entirely ionized or neutral panics or
 never ionizes if cooling is prevented

The floor of the ionized fraction is its initial value. Above 1 - 1e-10,
f64::clamp panics because its minimum exceeds its maximum. At 0, the lower
limit of 1e-10 that keeps relative changes finite no longer applies, so no
timestep is ever accepted and the gas stays neutral whatever shines on it.
---
 src/chemistry/hydrogen_only/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/chemistry/hydrogen_only/mod.rs b/src/chemistry/hydrogen_only/mod.rs
index 541d3d5..75922e1 100644
--- a/src/chemistry/hydrogen_only/mod.rs
+++ b/src/chemistry/hydrogen_only/mod.rs
@@ -357,7 +357,11 @@ impl Solver {
         let xhii_floor = self
             .floor
             .map(|(_, xhii)| *xhii)
-            .unwrap_or(IONIZED_HYDROGEN_FRACTION_EPSILON);
+            .unwrap_or(IONIZED_HYDROGEN_FRACTION_EPSILON)
+            .clamp(
+                IONIZED_HYDROGEN_FRACTION_EPSILON,
+                1.0 - IONIZED_HYDROGEN_FRACTION_EPSILON,
+            );
         self.ionized_hydrogen_fraction = self
             .ionized_hydrogen_fraction
             .clamp(xhii_floor, 1.0 - IONIZED_HYDROGEN_FRACTION_EPSILON);
-- 
2.43.0


From 6f921566095718cd8102cc532ecd6eb12ed77a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:20 +0000
Subject: [PATCH 08/23] fix: sources behind the last particle on the
 space-filling curve belong to no rank

get_owning_rank returned num_ranks for such places, so that no rank put the
source into one of its particles and its photons were lost silently.
---
 src/domain/decomposition.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/domain/decomposition.rs b/src/domain/decomposition.rs
index f389242..a1dafaf 100644
--- a/src/domain/decomposition.rs
+++ b/src/domain/decomposition.rs
@@ -91,10 +91,14 @@ impl<K: Key> Decomposition<K> {
     }
 
     pub fn get_owning_rank(&self, key: K) -> Rank {
-        self.cuts
+        let rank = self
+            .cuts
             .binary_search(&key)
             .map(|x| x + 1)
-            .unwrap_or_else(|e| e) as i32
+            .unwrap_or_else(|e| e);
+        // The last cut is just behind the last particle, but the last rank
+        // owns everything behind it as well.
+        rank.min(self.num_ranks - 1) as i32
     }
 
     pub fn get_imbalance(&self) -> f64 {
-- 
2.43.0


From bcf5fd6f9abbccd7bb8a55b397c8ae4b9861d6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:31 +0000
Subject: [PATCH 09/23] fix: the domain decomposition cannot divide small dense
 regions

The search for a cut gave up after as many steps as the key has bits per
dimension, instead of bits. Ranks got no particles at all (and the run
panicked) if many particles were within 2^-14 of the box.
---
 src/domain/key.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/domain/key.rs b/src/domain/key.rs
index 5109af4..6df80b8 100644
--- a/src/domain/key.rs
+++ b/src/domain/key.rs
@@ -26,7 +26,7 @@ pub trait Key: PartialOrd + Ord + Copy + Clone + Debug + Equivalence {
 
 impl Key for PeanoKey2d {
     type Dimension = TwoD;
-    const MAX_DEPTH: usize = NUM_BITS_PER_DIMENSION_2D as usize;
+    const MAX_DEPTH: usize = 2 * NUM_BITS_PER_DIMENSION_2D as usize;
 
     fn middle(start: Self, end: Self) -> Self {
         Self(start.0 / 2 + end.0 / 2)
@@ -40,7 +40,7 @@ impl Key for PeanoKey2d {
 impl Key for PeanoKey3d {
     type Dimension = ThreeD;
 
-    const MAX_DEPTH: usize = NUM_BITS_PER_DIMENSION_3D as usize;
+    const MAX_DEPTH: usize = 3 * NUM_BITS_PER_DIMENSION_3D as usize;
 
     fn middle(start: Self, end: Self) -> Self {
         Self(start.0 / 2 + end.0 / 2)
-- 
2.43.0


From ef978a051be8c45160cf7cc7958db5b6896596f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:49 +0000
Subject: [PATCH 10/23] fix: snapshots carry the scale factor and redshift of
 their own time

---
 src/simulation_plugin/mod.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/simulation_plugin/mod.rs b/src/simulation_plugin/mod.rs
index 2457343..3368e4a 100644
--- a/src/simulation_plugin/mod.rs
+++ b/src/simulation_plugin/mod.rs
@@ -93,10 +93,7 @@ impl SubsweepPlugin for SimulationPlugin {
                 StartupStages::InsertDerivedComponents,
                 set_initial_cosmology_attributes_system,
             )
-            .add_system_to_stage(
-                Stages::Initial,
-                set_cosmological_time_variables_system.before(show_time_system),
-            )
+            .add_system_to_stage(Stages::AfterSweep, set_cosmological_time_variables_system)
             .add_plugin(OutputPlugin::<Attribute<ScaleFactor>>::default())
             .add_plugin(OutputPlugin::<Attribute<Redshift>>::default())
             .add_plugin(OutputPlugin::<Attribute<LittleH>>::default());
-- 
2.43.0


From 0ed1cd9a08d7d37f2894cfac001ee68b0e0f26d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:30 +0000
Subject: [PATCH 11/23] fix: overrides of an omitted section are dropped if
 they do not fit it

---
 src/parameter_plugin/parameter_file_contents.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/parameter_plugin/parameter_file_contents.rs b/src/parameter_plugin/parameter_file_contents.rs
index d5ec2e0..cadb4eb 100644
--- a/src/parameter_plugin/parameter_file_contents.rs
+++ b/src/parameter_plugin/parameter_file_contents.rs
@@ -43,8 +43,15 @@ fn extract_from_default<T: SubsweepParameters>(overrides: &[Override]) -> T {
         insert_overrides(&mut value, overrides);
         value
     };
-    let values_to_try = [get_value(), Value::Null];
-    let results = values_to_try.map(|value| serde_yaml::from_value::<T>(value));
+    // A section without any content never contains the overrides.
+    let mut values_to_try = vec![get_value()];
+    if overrides.is_empty() {
+        values_to_try.push(Value::Null);
+    }
+    let results: Vec<_> = values_to_try
+        .into_iter()
+        .map(|value| serde_yaml::from_value::<T>(value))
+        .collect();
     let errors = results
         .iter()
         .filter_map(|r| match r {
-- 
2.43.0


From bcdfdd4dd6d404ea52e03970afe4992a06837fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:30 +0000
Subject: [PATCH 12/23] fix: values of parameter overrides cannot contain
 colons

---
 src/command_line_options.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/command_line_options.rs b/src/command_line_options.rs
index 679755d..baf1915 100644
--- a/src/command_line_options.rs
+++ b/src/command_line_options.rs
@@ -27,15 +27,14 @@ impl FromStr for Override {
     type Err = ParseParameterOverrideError;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        let split: Vec<_> = s.split(':').collect();
-        if split.len() != 2 {
-            return Err(ParseParameterOverrideError(format!(
+        let (keys, value) = s.split_once(':').ok_or_else(|| {
+            ParseParameterOverrideError(format!(
                 "Expected key and value separated by `:`, found `{s}`",
-            )));
-        }
-        let mut keys: Vec<String> = split[0].split('/').map(|x| x.to_owned()).collect();
+            ))
+        })?;
+        let mut keys: Vec<String> = keys.split('/').map(|x| x.to_owned()).collect();
         let section = keys.remove(0);
-        let value = serde_yaml::from_str(split[1]).unwrap_or_else(|e| panic!("Failed to parse parameter value in command line argument. keys: {:?} value: {}\n{}", &keys, &split[1], e));
+        let value = serde_yaml::from_str(value).unwrap_or_else(|e| panic!("Failed to parse parameter value in command line argument. keys: {:?} value: {}\n{}", &keys, &value, e));
         Ok(Override {
             section,
             keys,
-- 
2.43.0


From c9d38b8a9dd76e90912448a597114eae35e2cc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:56 +0000
Subject: [PATCH 13/23] fix: overrides following one of the entire section are
 dropped

---
 src/parameter_plugin/parameter_file_contents.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/parameter_plugin/parameter_file_contents.rs b/src/parameter_plugin/parameter_file_contents.rs
index cadb4eb..a775015 100644
--- a/src/parameter_plugin/parameter_file_contents.rs
+++ b/src/parameter_plugin/parameter_file_contents.rs
@@ -21,10 +21,9 @@ pub struct ParameterFileContents {
 
 fn insert_overrides(value: &mut Value, overrides: &[Override]) {
     for o in overrides.iter() {
-        // This value specifies the entire section. Return.
+        // This value specifies the entire section.
         if o.keys.is_empty() {
             *value = o.value.clone();
-            return;
         } else {
             insert_sublevel_override(value, o);
         }
-- 
2.43.0


From b70447dfee47b46e0e38b13c301b30317fc9d5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:56 +0000
Subject: [PATCH 14/23] fix: parameter files with syntax errors are read as
 empty ones

---
 src/parameter_plugin/parameter_file_contents.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parameter_plugin/parameter_file_contents.rs b/src/parameter_plugin/parameter_file_contents.rs
index a775015..7d1be49 100644
--- a/src/parameter_plugin/parameter_file_contents.rs
+++ b/src/parameter_plugin/parameter_file_contents.rs
@@ -132,7 +132,7 @@ impl ParameterFileContents {
                     .map(|(k, v)| (k.as_str().unwrap().to_owned(), v.clone()))
                     .collect()
             })
-            .unwrap_or_default();
+            .unwrap_or_else(|e| panic!("Failed to parse parameter file: {e}"));
         Self {
             sections,
             overrides: vec![],
-- 
2.43.0


From 1e1927cb7351fa897ee639885e5a259a6a91e436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:11 +0000
Subject: [PATCH 15/23] fix: overrides of unknown parameter sections are
 silently ignored

---
 src/parameter_plugin/parameter_file_contents.rs | 9 ++++++++-
 src/simulation/mod.rs                           | 2 +-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/parameter_plugin/parameter_file_contents.rs b/src/parameter_plugin/parameter_file_contents.rs
index 7d1be49..6f37f19 100644
--- a/src/parameter_plugin/parameter_file_contents.rs
+++ b/src/parameter_plugin/parameter_file_contents.rs
@@ -143,8 +143,15 @@ impl ParameterFileContents {
         self.overrides = overrides;
     }
 
+    /// The names of all sections for which there are either
+    /// contents in the parameter file or overrides.
     pub fn get_section_names(&self) -> impl Iterator<Item = &String> {
-        self.sections.keys()
+        let overridden = self
+            .overrides
+            .iter()
+            .map(|o| &o.section)
+            .filter(|name| !self.sections.contains_key(*name));
+        self.sections.keys().chain(overridden)
     }
 
     fn get_overrides_for_section(
diff --git a/src/simulation/mod.rs b/src/simulation/mod.rs
index e7c72f1..c2482f3 100644
--- a/src/simulation/mod.rs
+++ b/src/simulation/mod.rs
@@ -481,7 +481,7 @@ impl Simulation {
         // This will eventually be replaced by a allow_unused method on
         // the parameters trait, but that will probably require a proper
         // derive macro for the parameters trait.
-        if unused.len() == 1 && unused[0] == "visualization" {
+        if unused.iter().all(|section| section == "visualization") {
             return;
         }
         if !unused.is_empty() {
-- 
2.43.0


From 22fb4b43f872039f15b2d77dc9906989868727f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:43 +0000
Subject: [PATCH 16/23] fix: output fields cannot be given as 'all'

---
 src/io/output/parameters.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/io/output/parameters.rs b/src/io/output/parameters.rs
index c61e2b1..658c235 100644
--- a/src/io/output/parameters.rs
+++ b/src/io/output/parameters.rs
@@ -1,6 +1,9 @@
 use std::path::PathBuf;
 
 use derive_custom::subsweep_parameters;
+use serde::de::Error;
+use serde::Deserialize;
+use serde::Deserializer;
 
 use super::plugin::IntoOutputSystem;
 use crate::named::Named;
@@ -26,10 +29,20 @@ pub enum HandleExistingOutput {
 #[subsweep_parameters]
 #[serde(untagged)]
 pub enum Fields {
+    #[serde(deserialize_with = "deserialize_all")]
     All,
     Some(Vec<String>),
 }
 
+fn deserialize_all<'de, D: Deserializer<'de>>(deserializer: D) -> Result<(), D::Error> {
+    match Option::<String>::deserialize(deserializer)?.as_deref() {
+        None | Some("all") => Ok(()),
+        Some(other) => Err(Error::custom(format!(
+            "Expected 'all' or a list of fields, found '{other}'"
+        ))),
+    }
+}
+
 /// Parameters for the output of the simulation.
 /// Only required if write_output
 /// is set in the [SimulationBuilder](crate::prelude::SimulationBuilder)
-- 
2.43.0


From 727410325fc61ce45d78fa87c74209a845237253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:23 +0000
Subject: [PATCH 17/23] fix: read the files of a directory in the order of
 their names

---
 src/io/input/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/io/input/mod.rs b/src/io/input/mod.rs
index 3a49dca..a18e0d6 100644
--- a/src/io/input/mod.rs
+++ b/src/io/input/mod.rs
@@ -73,7 +73,7 @@ pub fn get_file_or_all_hdf5_files_in_path_if_dir(path: &Path) -> Vec<PathBuf> {
     if path.is_file() {
         vec![path.to_owned()]
     } else {
-        fs::read_dir(path)
+        let mut files: Vec<_> = fs::read_dir(path)
             .unwrap_or_else(|e| {
                 panic!("Error: {e} while trying to read remap path {path:?} as directory")
             })
@@ -87,7 +87,11 @@ pub fn get_file_or_all_hdf5_files_in_path_if_dir(path: &Path) -> Vec<PathBuf> {
                     None
                 }
             })
-            .collect()
+            .collect();
+        // The order in which the entries of a directory are returned is unspecified, but
+        // it has to be the same on all ranks and for all snapshots of a run.
+        files.sort();
+        files
     }
 }
 
-- 
2.43.0


From 2ca0cb16dc93b09b15cb08527613f3c7c5224e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:23 +0000
Subject: [PATCH 18/23] fix: remap in non-cosmological runs

---
 src/arepo_postprocess/remap.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/arepo_postprocess/remap.rs b/src/arepo_postprocess/remap.rs
index d116d48..7d91862 100644
--- a/src/arepo_postprocess/remap.rs
+++ b/src/arepo_postprocess/remap.rs
@@ -103,12 +103,18 @@ fn read_remap_data(
     );
     let temperature = last_snap_reader.read_dataset(descriptor);
     // The position is written to the first snap, so we should remap it using the cosmology from that
-    let scale_factor = read_attribute::<ScaleFactor>(&first_snap_files[0]);
-    let little_h = read_attribute::<LittleH>(&first_snap_files[0]);
-    let remap_cosmology = Cosmology::Cosmological {
-        a: *scale_factor.0,
-        h: *little_h.0,
-        params: None,
+    let remap_cosmology = match cosmology {
+        Cosmology::Cosmological { .. } => {
+            let scale_factor = read_attribute::<ScaleFactor>(&first_snap_files[0]);
+            let little_h = read_attribute::<LittleH>(&first_snap_files[0]);
+            Cosmology::Cosmological {
+                a: *scale_factor.0,
+                h: *little_h.0,
+                params: None,
+            }
+        }
+        // Snapshots of non-cosmological runs do not have these attributes.
+        Cosmology::NonCosmological => Cosmology::NonCosmological,
     };
     let factor = get_scale_factor_difference(Length::dimension(), cosmology, &remap_cosmology);
     position
-- 
2.43.0


From e18479e61a3758d812ecd2c96c88d786cbdf6200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:24 +0000
Subject: [PATCH 19/23] fix: remap when some ranks have no remap data

---
 src/arepo_postprocess/remap.rs | 42 ++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/arepo_postprocess/remap.rs b/src/arepo_postprocess/remap.rs
index 7d91862..ea2734c 100644
--- a/src/arepo_postprocess/remap.rs
+++ b/src/arepo_postprocess/remap.rs
@@ -210,23 +210,29 @@ impl<'a, 'w, 's> Remapper<'a, 'w, 's> {
             DataByRank::from_communicator(&self.comm2);
         for (rank, requests) in incoming {
             for request in requests {
-                let reply = Identified::new(request.entity(), self.get_reply(&request.data));
-                outgoing[rank].push(reply);
+                if let Some(reply) = self.get_reply(&request.data) {
+                    outgoing[rank].push(Identified::new(request.entity(), reply));
+                }
             }
         }
         let incoming = self.comm2.exchange_all(outgoing);
         for (_, replies) in incoming {
             for reply in replies {
                 let entity = reply.entity();
-                let previously_closest = &closest_map[&entity];
-                if previously_closest.squared_distance > reply.data.squared_distance {
-                    closest_map.insert(entity, reply.data);
+                let is_closer = match &closest_map[&entity] {
+                    Some(closest) => closest.squared_distance > reply.data.squared_distance,
+                    None => true,
+                };
+                if is_closer {
+                    closest_map.insert(entity, Some(reply.data));
                 }
             }
         }
         for (entity, closest) in closest_map.into_iter() {
             let (_, _, mut temp, mut ion_frac) = self.particles.get_mut(entity).unwrap();
-            remap_from(&mut temp, &mut ion_frac, closest.data);
+            if let Some(closest) = closest {
+                remap_from(&mut temp, &mut ion_frac, closest.data);
+            }
         }
     }
 
@@ -235,16 +241,20 @@ impl<'a, 'w, 's> Remapper<'a, 'w, 's> {
     /// particle than the distance to the locally closest particle.
     fn get_outgoing_requests(
         &self,
-        local_map: &HashMap<Entity, SearchReply>,
+        local_map: &HashMap<Entity, Option<SearchReply>>,
         chunk: &[Identified<SearchRequest>],
     ) -> DataByRank<Vec<Identified<SearchRequest>>> {
         let mut outgoing: DataByRank<Vec<Identified<SearchRequest>>> =
             DataByRank::from_communicator(&self.comm1);
-        for rank in self.comm1.other_ranks() {
-            let extent = &self.extents[rank];
+        // Ranks without any remap data have no extent.
+        for (rank, extent) in self.extents.iter() {
+            if rank == self.comm1.rank() {
+                continue;
+            }
             for request in chunk.iter() {
-                let local_squared_distance =
-                    local_map.get(&request.entity()).unwrap().squared_distance;
+                let local_squared_distance = local_map[&request.entity()]
+                    .as_ref()
+                    .map_or(f64::INFINITY, |reply| reply.squared_distance);
                 if self.closer_particle_could_exist_on_other_rank(
                     extent,
                     &request.data,
@@ -269,13 +279,17 @@ impl<'a, 'w, 's> Remapper<'a, 'w, 's> {
         squared_distance_extent < squared_distance
     }
 
-    fn get_reply(&self, request: &SearchRequest) -> SearchReply {
+    /// The closest particle on this rank, if there is any.
+    fn get_reply(&self, request: &SearchRequest) -> Option<SearchReply> {
+        if self.data.is_empty() {
+            return None;
+        }
         let tree_coord = pos_to_tree_coord(&request.pos);
         let (squared_distance, index) = self.tree.nearest_one(&tree_coord, &squared_euclidean);
-        SearchReply {
+        Some(SearchReply {
             squared_distance,
             data: self.data[index].clone().into(),
-        }
+        })
     }
 }
 
-- 
2.43.0


From ccb0f3ce6d231e2062f9e8e5b711d526f1b814dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:50 +0000
Subject: [PATCH 20/23] fix: find scale factors above 1

A run whose scale factor reaches or starts beyond 1 panicked in the
search for the scale factor, because only values up to 1 were tried.
---
 src/cosmology.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/cosmology.rs b/src/cosmology.rs
index 56979b0..15a7fe3 100644
--- a/src/cosmology.rs
+++ b/src/cosmology.rs
@@ -114,13 +114,17 @@ impl CosmologyParams {
         h: Dimensionless,
         delta_t: Time,
     ) -> Dimensionless {
+        let remaining_time = |a1: f64| {
+            (self.time_difference_between_scalefactors(a, a1.into(), h) - delta_t).value_unchecked()
+        };
         let min = 0.0;
-        let max = 1.0;
+        let mut max = 1.0;
+        // Simulations can run past a = 1
+        while remaining_time(max) < 0.0 {
+            max *= 2.0;
+        }
         binary_search(
-            |a1| {
-                (self.time_difference_between_scalefactors(a, a1.into(), h) - delta_t)
-                    .value_unchecked()
-            },
+            remaining_time,
             min,
             max,
             Time::years(100.0).value_unchecked(),
-- 
2.43.0


From 47ac3e37d7aa41f9451ea2bcee37345328c3072d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:47 +0000
Subject: [PATCH 21/23] fix: photoionization rate averages without the field in
 the output

The time series of the volume averaged photoionization rate were
computed from a component that only existed if the field
photoionization_rate was written to snapshots, and were zero otherwise.
---
 src/sweep/mod.rs | 50 +++++++++++++++++++++++++++++++++---------------
 1 file changed, 35 insertions(+), 15 deletions(-)

diff --git a/src/sweep/mod.rs b/src/sweep/mod.rs
index 76ea456..297046c 100644
--- a/src/sweep/mod.rs
+++ b/src/sweep/mod.rs
@@ -162,7 +162,11 @@ impl SubsweepPlugin for SweepPlugin {
         init_optional_chemistry_component::<HeatingRate>(sim);
         init_optional_chemistry_component::<RecombinationRate>(sim);
         init_optional_chemistry_component::<CollisionalIonizationRate>(sim);
-        init_optional_chemistry_component::<PhotoionizationRate>(sim);
+        // Always needed: the time series average over it.
+        if has_output_parameters(sim) {
+            init_component::<PhotoionizationRate>(sim);
+            add_chemistry_output_system::<PhotoionizationRate>(sim);
+        }
         init_optional_component::<Timestep>(sim);
         init_optional_component::<IonizationTime>(sim);
     }
@@ -764,22 +768,31 @@ fn initialize_optional_component_system<C: Component + Named + Default>(
     }
 }
 
+fn has_output_parameters(sim: &Simulation) -> bool {
+    // Not the case in tests and benches
+    sim.contains_resource::<OutputParameters>()
+}
+
+fn init_component<C>(sim: &mut Simulation)
+where
+    C: Equivalence + ToDataset + H5Type + Clone + Component + Named + Default,
+    <C as Equivalence>::Out: MatchesRaw,
+{
+    sim.add_derived_component::<C>();
+    sim.add_startup_system_to_stage(
+        StartupStages::InsertDerivedComponents,
+        initialize_optional_component_system::<C>,
+    );
+}
+
 fn init_optional_component<C>(sim: &mut Simulation) -> bool
 where
     C: Equivalence + ToDataset + H5Type + Clone + Component + Named + Default,
     <C as Equivalence>::Out: MatchesRaw,
 {
-    // Happens in tests and benches
-    if !sim.contains_resource::<OutputParameters>() {
-        return false;
-    }
-    let is_desired = is_desired_field::<C>(sim);
+    let is_desired = has_output_parameters(sim) && is_desired_field::<C>(sim);
     if is_desired {
-        sim.add_derived_component::<C>();
-        sim.add_startup_system_to_stage(
-            StartupStages::InsertDerivedComponents,
-            initialize_optional_component_system::<C>,
-        );
+        init_component::<C>(sim);
     }
     is_desired
 }
@@ -790,13 +803,20 @@ where
     <C as Equivalence>::Out: MatchesRaw,
 {
     if init_optional_component::<C>(sim) {
-        sim.add_system_to_stage(
-            Stages::Sweep,
-            sweep_optional_output_system::<C>.after(run_sweep_system),
-        );
+        add_chemistry_output_system::<C>(sim);
     }
 }
 
+fn add_chemistry_output_system<C>(sim: &mut Simulation)
+where
+    C: Component + ChemistryOutputType,
+{
+    sim.add_system_to_stage(
+        Stages::Sweep,
+        sweep_optional_output_system::<C>.after(run_sweep_system),
+    );
+}
+
 pub fn initialize_sweep_test_components_system(
     mut commands: Commands,
     local_particles: Query<Entity, With<LocalParticle>>,
-- 
2.43.0


From 28410d888418425cdd9ef9d915cdcf89837499e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:51 +0000
Subject: [PATCH 22/23] fix: Cartesian grids losing a layer of cells to
 rounding

---
 src/sweep/grid/cartesian.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sweep/grid/cartesian.rs b/src/sweep/grid/cartesian.rs
index 29b93d4..073f0ab 100644
--- a/src/sweep/grid/cartesian.rs
+++ b/src/sweep/grid/cartesian.rs
@@ -31,6 +31,8 @@ pub const NUM_DIMENSIONS: usize = 2;
 #[cfg(not(feature = "2d"))]
 pub const NUM_DIMENSIONS: usize = 3;
 
+const NUM_CELLS_TOLERANCE: Float = 1e-10;
+
 #[subsweep_parameters]
 #[derive(Copy)]
 #[serde(untagged)]
@@ -139,7 +141,9 @@ impl IntegerPosition {
     }
 
     fn from_position_and_side_length(pos: VecLength, side_length: Length) -> IntegerPosition {
-        let float = (pos / side_length).value();
+        // Sides that are multiples of the cell size up to rounding
+        // should not lose a layer of cells.
+        let float = (pos / side_length).value() * (1.0 + NUM_CELLS_TOLERANCE);
         #[cfg(feature = "2d")]
         {
             Self {
-- 
2.43.0


From 338de1013a771d8e14d271e015e3a857055c8cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:47 +0000
Subject: [PATCH 23/23] fix: cosmic times without dark energy

---
 src/cosmology.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cosmology.rs b/src/cosmology.rs
index 15a7fe3..5684700 100644
--- a/src/cosmology.rs
+++ b/src/cosmology.rs
@@ -94,6 +94,10 @@ impl CosmologyParams {
         }
 
         let time = |a: Dimensionless| {
+            if *omega_lambda == 0.0 {
+                // The limit of the expression below
+                return Dimensionless::dimensionless(2.0 / (3.0 * omega_0.sqrt()) * a.powf(1.5));
+            }
             let factor1 = 2.0 / (3.0 * omega_lambda.sqrt());
             let term1 = (omega_lambda / omega_0).sqrt() * a.powf(1.5);
             let term2 = (1.0 + omega_lambda / omega_0 * a.cubed()).sqrt();
-- 
2.43.0

