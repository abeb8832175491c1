From 6752d77d30a25dc8fcec68bd1bcf43f8efec158a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:08 +0000
Subject: [PATCH 01/17] fix: decide determinant signs relative to the size of
 the terms

The float result was only compared against the single entries of the
matrix, so that for large coordinates a result that is nothing but
rounding error was taken as the sign. The bounds for 3x3 and 4x4 are
strict, the one for 5x5 is as tight as the known matrices allow.
---
 src/voronoi/math/precision_types.rs |  4 ++--
 src/voronoi/math/utils.rs           | 11 +++++++----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/voronoi/math/precision_types.rs b/src/voronoi/math/precision_types.rs
index 938be52..c0f616b 100644
--- a/src/voronoi/math/precision_types.rs
+++ b/src/voronoi/math/precision_types.rs
@@ -30,8 +30,8 @@ pub const TRIANGLE_CONTAINS_EPSILON: f64 = 1e-15;
 pub const TRIANGLE_INTERSECTION_TYPE_EPSILON: f64 = 1e-15;
 pub const TETRAHEDRON_POINTS_ON_SAME_SIDE_EPSILON: f64 = 1e-15;
 pub const DETERMINANT_3X3_EPSILON: f64 = 1e-15;
-pub const DETERMINANT_4X4_EPSILON: f64 = 1e-15;
-pub const DETERMINANT_5X5_EPSILON: f64 = 1e-15;
+pub const DETERMINANT_4X4_EPSILON: f64 = 2e-15;
+pub const DETERMINANT_5X5_EPSILON: f64 = 5e-19;
 
 pub trait FloatError {
     fn is_too_close_to_zero(&self, epsilon: f64) -> bool;
diff --git a/src/voronoi/math/utils.rs b/src/voronoi/math/utils.rs
index 12e30af..92936d0 100644
--- a/src/voronoi/math/utils.rs
+++ b/src/voronoi/math/utils.rs
@@ -195,10 +195,13 @@ fn compare_result_against_entries<const D: usize>(
     m: &Matrix<D, D, f64>,
     epsilon: f64,
 ) -> Result<f64, PrecisionError> {
-    for row in m.iter() {
-        for entry in row.iter() {
-            PrecisionError::check(&(val / entry), epsilon)?;
-        }
+    // The rounding error of the expansion is proportional to the sum of
+    // the absolute values of its terms, which this bounds from above.
+    let magnitude: f64 = (0..D)
+        .map(|j| m.iter().map(|row| row[j].abs()).sum::<f64>())
+        .product();
+    if !(val.abs() > epsilon * magnitude) {
+        return Err(PrecisionError);
     }
     Ok(val)
 }
-- 
2.43.0


From cb22dab3946582e7150f365c7fc0d6be4afae208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:15 +0000
Subject: [PATCH 02/17] fix: let every rank take part in the check for initial
 tasks

check_deadlock returned before the collective on ranks without any
active task, so the remaining ranks waited for them forever.
---
 src/sweep/deadlock_detection.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/sweep/deadlock_detection.rs b/src/sweep/deadlock_detection.rs
index 7e5d856..afbdbf1 100644
--- a/src/sweep/deadlock_detection.rs
+++ b/src/sweep/deadlock_detection.rs
@@ -84,10 +84,6 @@ impl<C: Chemistry> Sweep<C> {
     }
 
     fn check_some_initial_task_exists(&self) {
-        let num_to_solve = self.cells.enumerate_active(self.current_level).count();
-        if num_to_solve == 0 {
-            return;
-        }
         let num_initial_tasks = self.to_solve.len();
         let mut ex = MpiWorld::new_custom_tag(DEADLOCK_DETECTION_TAG);
         let total: usize = ex.all_gather_sum(&num_initial_tasks);
-- 
2.43.0


From 1f549935c3b505c03565b4a03438e259fd03ac7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:41 +0000
Subject: [PATCH 03/17] fix: await all outstanding sends before the send
 buffers are dropped

Only the first outstanding request was awaited.
---
 src/sweep/communicator.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/sweep/communicator.rs b/src/sweep/communicator.rs
index 500fe4f..606563b 100644
--- a/src/sweep/communicator.rs
+++ b/src/sweep/communicator.rs
@@ -118,7 +118,6 @@ impl<C: Chemistry> Drop for SweepCommunicator<C> {
         for (rank, request) in self.requests.iter() {
             if let Some(request) = request {
                 self.wait_for_request(rank, *request);
-                return;
             }
         }
     }
-- 
2.43.0


From bdc23fb7a4539119d2710739cafb4457b80e4706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:41 +0000
Subject: [PATCH 04/17] fix: keep rate corrections for inactive neighbours on
 other ranks

A correction of the outgoing rate was dropped if the neighbour lives on
another rank and was not active in this sweep. Since the following
corrections are relative to the new outgoing rate, the incoming rate of
the neighbour stayed wrong for the rest of the run, depending on the
domain decomposition.
---
 src/sweep/direction/mod.rs |  3 ++
 src/sweep/mod.rs           | 61 +++++++++++++++++++++++++++-----------
 2 files changed, 47 insertions(+), 17 deletions(-)

diff --git a/src/sweep/direction/mod.rs b/src/sweep/direction/mod.rs
index 6b9dfd6..853d2da 100644
--- a/src/sweep/direction/mod.rs
+++ b/src/sweep/direction/mod.rs
@@ -171,6 +171,9 @@ pub(super) fn rotate_directions_system(
         remap(&mut site.outgoing_total_rate, &old_dirs, &new_dirs);
         remap(&mut site.periodic_source, &old_dirs, &new_dirs);
     }
+    for rates in solver.deferred.values_mut() {
+        remap(rates, &old_dirs, &new_dirs);
+    }
 }
 
 fn kernel_f(d1: &Direction, dirs: &[Direction]) -> Vec<f64> {
diff --git a/src/sweep/mod.rs b/src/sweep/mod.rs
index a66d17d..384d30c 100644
--- a/src/sweep/mod.rs
+++ b/src/sweep/mod.rs
@@ -176,6 +176,10 @@ struct Sweep<C: Chemistry> {
     halo_levels: HashMap<ParticleId, TimestepLevel>,
     to_solve: PriorityQueue<Task>,
     to_send: DataByRank<Queue<RateData<C>>>,
+    /// Corrections (by direction) for remote neighbours which were
+    /// not active when the corrections were computed. The flag
+    /// distinguishes neighbours across a periodic boundary.
+    deferred: HashMap<(ParticleId, bool), Vec<Rate<C>>>,
     to_solve_count: CountByDir,
     to_receive_count: DataByRank<usize>,
     timestep_state: TimestepState,
@@ -214,6 +218,7 @@ impl<C: Chemistry> Sweep<C> {
             halo_levels,
             to_solve: PriorityQueue::new(),
             to_send: DataByRank::from_size_and_rank(world_size, world_rank),
+            deferred: HashMap::default(),
             directions,
             to_solve_count: CountByDir::empty(),
             to_receive_count: DataByRank::empty(),
@@ -518,15 +523,7 @@ impl<C: Chemistry> Sweep<C> {
         rate_correction: Rate<C>,
         remote: &RemoteNeighbour,
     ) {
-        if self.is_active(remote.id) {
-            let rate_data = RateData {
-                dir: task.dir,
-                rate: rate_correction,
-                id: remote.id,
-                periodic: false,
-            };
-            self.to_send[remote.rank].push(rate_data);
-        }
+        self.send_or_defer(task.dir, rate_correction, remote.rank, remote.id, false);
     }
 
     fn handle_remote_periodic_neighbour(
@@ -535,14 +532,44 @@ impl<C: Chemistry> Sweep<C> {
         rate_correction: Rate<C>,
         neighbour: &RemotePeriodicNeighbour,
     ) {
-        if self.is_active(neighbour.id) {
-            let rate_data = RateData {
-                dir: task.dir,
-                rate: rate_correction,
-                id: neighbour.id,
-                periodic: true,
-            };
-            self.to_send[neighbour.rank].push(rate_data);
+        self.send_or_defer(
+            task.dir,
+            rate_correction,
+            neighbour.rank,
+            neighbour.id,
+            true,
+        );
+    }
+
+    /// Inactive neighbours do not expect any messages, so a
+    /// correction for them is kept until they are active again. Since
+    /// their level is lower than that of the cell it comes from, that
+    /// cell is then active too.
+    fn send_or_defer(
+        &mut self,
+        dir: DirectionIndex,
+        mut rate: Rate<C>,
+        rank: Rank,
+        id: ParticleId,
+        periodic: bool,
+    ) {
+        if self.is_active(id) {
+            if let Some(deferred) = self.deferred.get_mut(&(id, periodic)) {
+                rate += std::mem::replace(&mut deferred[*dir], Rate::<C>::zero());
+            }
+            self.to_send[rank].push(RateData {
+                dir,
+                rate,
+                id,
+                periodic,
+            });
+        } else {
+            let num_directions = self.directions.len();
+            let deferred = self
+                .deferred
+                .entry((id, periodic))
+                .or_insert_with(|| vec![Rate::<C>::zero(); num_directions]);
+            deferred[*dir] += rate;
         }
     }
 
-- 
2.43.0


From 156189c47caae154d8d75e563c54d638d2d62e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:21 +0000
Subject: [PATCH 05/17] fix: search for domain cuts over all bits of the key

The search for a cut stopped after as many halvings as a key has bits per
dimension, so that particles closer together than about 2^-14 of the box
could not be put on different ranks: ranks were left overloaded or without
any particle, which later panics. The midpoint could also fall below the
start of the range if both ends are odd.
---
 src/domain/key.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/domain/key.rs b/src/domain/key.rs
index 5109af4..9ed8234 100644
--- a/src/domain/key.rs
+++ b/src/domain/key.rs
@@ -26,10 +26,10 @@ pub trait Key: PartialOrd + Ord + Copy + Clone + Debug + Equivalence {
 
 impl Key for PeanoKey2d {
     type Dimension = TwoD;
-    const MAX_DEPTH: usize = NUM_BITS_PER_DIMENSION_2D as usize;
+    const MAX_DEPTH: usize = 2 * NUM_BITS_PER_DIMENSION_2D as usize;
 
     fn middle(start: Self, end: Self) -> Self {
-        Self(start.0 / 2 + end.0 / 2)
+        Self(start.0 + (end.0 - start.0) / 2)
     }
 
     fn next(self) -> Self {
@@ -40,10 +40,10 @@ impl Key for PeanoKey2d {
 impl Key for PeanoKey3d {
     type Dimension = ThreeD;
 
-    const MAX_DEPTH: usize = NUM_BITS_PER_DIMENSION_3D as usize;
+    const MAX_DEPTH: usize = 3 * NUM_BITS_PER_DIMENSION_3D as usize;
 
     fn middle(start: Self, end: Self) -> Self {
-        Self(start.0 / 2 + end.0 / 2)
+        Self(start.0 + (end.0 - start.0) / 2)
     }
 
     fn next(self) -> Self {
-- 
2.43.0


From 8da17d1160ff0f61ed9f28b19d90189f022acafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:59 +0000
Subject: [PATCH 06/17] fix: scale all dimensions alike when remapping points

remap_point scaled each dimension by its own side length. For extents that
are not cubes this deforms the circumspheres, and the resulting triangulation
is not a Delaunay triangulation of the points (although it is one of the
remapped points), so that the cells of the Voronoi grid are wrong.
---
 src/dimension.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dimension.rs b/src/dimension.rs
index 28d4ce3..c4f3cdd 100644
--- a/src/dimension.rs
+++ b/src/dimension.rs
@@ -43,7 +43,7 @@ impl Dimension for TwoD {
     type WrapType = PeriodicWrapType2d;
     fn remap_point(point: Point<Self>, extent: &Extent<Point<Self>>) -> Point<Self> {
         debug_assert!(extent.contains(&point));
-        MVec2::new(1.0, 1.0) + (point - extent.min) * (1.0 / extent.side_lengths())
+        MVec2::new(1.0, 1.0) + (point - extent.min) / extent.max_side_length()
     }
 }
 
@@ -55,7 +55,7 @@ impl Dimension for ThreeD {
     type WrapType = PeriodicWrapType3d;
     fn remap_point(point: Point<Self>, extent: &Extent<Point<Self>>) -> Point<Self> {
         debug_assert!(extent.contains(&point));
-        MVec3::new(1.0, 1.0, 1.0) + (point - extent.min) * (1.0 / extent.side_lengths())
+        MVec3::new(1.0, 1.0, 1.0) + (point - extent.min) / extent.max_side_length()
     }
 }
 
-- 
2.43.0


From 0cee06aafe5bf9bd4ee9380a4c997bbfe698bf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:00 +0000
Subject: [PATCH 07/17] fix: apply the overrides that follow one of a whole
 section

An override of a whole section ended the loop over the overrides, so that
all later ones of the same section were silently ignored.
---
 src/parameter_plugin/parameter_file_contents.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/parameter_plugin/parameter_file_contents.rs b/src/parameter_plugin/parameter_file_contents.rs
index d5ec2e0..9f07f5d 100644
--- a/src/parameter_plugin/parameter_file_contents.rs
+++ b/src/parameter_plugin/parameter_file_contents.rs
@@ -21,10 +21,9 @@ pub struct ParameterFileContents {
 
 fn insert_overrides(value: &mut Value, overrides: &[Override]) {
     for o in overrides.iter() {
-        // This value specifies the entire section. Return.
+        // This value specifies the entire section.
         if o.keys.is_empty() {
             *value = o.value.clone();
-            return;
         } else {
             insert_sublevel_override(value, o);
         }
-- 
2.43.0


From 493726ed1963df90b148d7fbd02a01d4fbc748b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:22 +0000
Subject: [PATCH 08/17] fix: do not fall back to defaults when overrides cannot
 be applied

If a section was absent from the parameter file and one of its overrides
could not be parsed, all of its overrides were silently ignored.
---
 src/parameter_plugin/parameter_file_contents.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/parameter_plugin/parameter_file_contents.rs b/src/parameter_plugin/parameter_file_contents.rs
index 9f07f5d..d853630 100644
--- a/src/parameter_plugin/parameter_file_contents.rs
+++ b/src/parameter_plugin/parameter_file_contents.rs
@@ -42,8 +42,16 @@ fn extract_from_default<T: SubsweepParameters>(overrides: &[Override]) -> T {
         insert_overrides(&mut value, overrides);
         value
     };
-    let values_to_try = [get_value(), Value::Null];
-    let results = values_to_try.map(|value| serde_yaml::from_value::<T>(value));
+    // Never fall back to the defaults if this means ignoring the overrides.
+    let values_to_try = if overrides.is_empty() {
+        vec![get_value(), Value::Null]
+    } else {
+        vec![get_value()]
+    };
+    let results: Vec<_> = values_to_try
+        .into_iter()
+        .map(|value| serde_yaml::from_value::<T>(value))
+        .collect();
     let errors = results
         .iter()
         .filter_map(|r| match r {
-- 
2.43.0


From 791903da67bf7147ec4ebf55b2b4eab3f4430d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:35 +0000
Subject: [PATCH 09/17] fix: attach sources to the closest particle of all
 ranks

The rank owning the position of a source attached it to the closest of its own particles, so that the result depended on the number of ranks.
---
 src/source_systems.rs | 46 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/src/source_systems.rs b/src/source_systems.rs
index d75965a..b5689b7 100644
--- a/src/source_systems.rs
+++ b/src/source_systems.rs
@@ -9,14 +9,12 @@ use mpi::traits::Equivalence;
 use serde::Serialize;
 
 use crate::communication::MpiWorld;
+use crate::communication::Rank;
 use crate::components;
 use crate::components::Position;
-use crate::domain::DecompositionState;
-use crate::domain::IntoKey;
 use crate::io::time_series::TimeSeriesPlugin;
 use crate::prelude::Float;
 use crate::prelude::Particles;
-use crate::prelude::SimulationBox;
 use crate::prelude::StartupStages;
 use crate::prelude::WorldRank;
 use crate::simulation::Simulation;
@@ -25,6 +23,8 @@ use crate::units::Length;
 use crate::units::SourceRate;
 use crate::units::VecLength;
 
+const CHUNK_SIZE: usize = 10000;
+
 #[derive(Debug, Clone, Equivalence, Named, Serialize)]
 #[name = "total_luminosity"]
 pub struct TotalLuminosity(pub SourceRate);
@@ -48,8 +48,6 @@ pub struct Sources {
 fn set_source_terms_system(
     mut particles: Particles<(&Position, &mut components::Source)>,
     sources: Res<Sources>,
-    decomposition: Res<DecompositionState>,
-    box_: Res<SimulationBox>,
     world_rank: Res<WorldRank>,
     mut writer: EventWriter<TotalLuminosity>,
 ) {
@@ -61,13 +59,37 @@ fn set_source_terms_system(
         .map(|(pos, _)| pos_to_tree_coord(pos))
         .collect::<Vec<_>>())
         .into();
-    for s in all_sources.iter() {
-        let key = s.pos.into_key(&*box_);
-        let rank = decomposition.get_owning_rank(key);
-        if rank == **world_rank {
-            let (_, index) = tree.nearest_one(&pos_to_tree_coord(&s.pos), &squared_euclidean);
-            let (_, ref mut source_term) = &mut particles[index];
-            ***source_term += s.rate;
+    let mut distance_comm = MpiWorld::<DistanceToSourceData>::new();
+    for sources in all_sources.chunks(CHUNK_SIZE) {
+        let closest: Vec<_> = sources
+            .iter()
+            .map(|s| {
+                if particles.is_empty() {
+                    (Float::INFINITY, 0)
+                } else {
+                    tree.nearest_one(&pos_to_tree_coord(&s.pos), &squared_euclidean)
+                }
+            })
+            .collect();
+        let distances: Vec<_> = closest
+            .iter()
+            .map(|(squared_distance, _)| {
+                DistanceToSourceData(Length::new_unchecked(squared_distance.sqrt()))
+            })
+            .collect();
+        let all_distances = distance_comm.all_gather_varcount(&distances);
+        // The closest particle might be on another rank than
+        // the one that owns the position of the source.
+        let num_ranks = all_distances.len() / sources.len();
+        for (i, (s, (_, index))) in sources.iter().zip(closest).enumerate() {
+            let distance = |rank: &usize| &all_distances[rank * sources.len() + i];
+            let closest_rank = (0..num_ranks)
+                .min_by(|r1, r2| distance(r1).partial_cmp(distance(r2)).unwrap())
+                .unwrap();
+            if closest_rank as Rank == **world_rank {
+                let (_, ref mut source_term) = &mut particles[index];
+                ***source_term += s.rate;
+            }
         }
     }
     let total: SourceRate = all_sources.iter().map(|source| source.rate).sum();
-- 
2.43.0


From fd09077f948b47978e9768b8fa3e25845ae66303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:29 +0000
Subject: [PATCH 10/17] fix: remap with ranks that have no particles of the
 previous run

A rank without remap data panicked when looking for the closest particle, as did all others when they looked up its extent.
---
 src/arepo_postprocess/remap.rs | 39 ++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/src/arepo_postprocess/remap.rs b/src/arepo_postprocess/remap.rs
index d116d48..498fc28 100644
--- a/src/arepo_postprocess/remap.rs
+++ b/src/arepo_postprocess/remap.rs
@@ -128,7 +128,7 @@ fn read_remap_data(
 struct Remapper<'a, 'w, 's> {
     data: Vec<FullRemapData>,
     tree: Tree,
-    extents: DataByRank<Extent>,
+    extents: DataByRank<Option<Extent>>,
     particles: &'a mut Particles<
         'w,
         's,
@@ -196,7 +196,7 @@ impl<'a, 'w, 's> Remapper<'a, 'w, 's> {
     fn exchange_request_chunk(&mut self, chunk: &[Identified<SearchRequest>]) {
         let mut closest_map: HashMap<_, _> = chunk
             .iter()
-            .map(|request| (request.entity(), self.get_reply(&request.data)))
+            .filter_map(|request| Some((request.entity(), self.get_reply(&request.data)?)))
             .collect();
         let outgoing = self.get_outgoing_requests(&closest_map, chunk);
         let incoming = self.comm1.exchange_all(outgoing);
@@ -204,16 +204,19 @@ impl<'a, 'w, 's> Remapper<'a, 'w, 's> {
             DataByRank::from_communicator(&self.comm2);
         for (rank, requests) in incoming {
             for request in requests {
-                let reply = Identified::new(request.entity(), self.get_reply(&request.data));
-                outgoing[rank].push(reply);
+                if let Some(reply) = self.get_reply(&request.data) {
+                    outgoing[rank].push(Identified::new(request.entity(), reply));
+                }
             }
         }
         let incoming = self.comm2.exchange_all(outgoing);
         for (_, replies) in incoming {
             for reply in replies {
                 let entity = reply.entity();
-                let previously_closest = &closest_map[&entity];
-                if previously_closest.squared_distance > reply.data.squared_distance {
+                let is_closer = closest_map.get(&entity).map_or(true, |previously_closest| {
+                    previously_closest.squared_distance > reply.data.squared_distance
+                });
+                if is_closer {
                     closest_map.insert(entity, reply.data);
                 }
             }
@@ -235,10 +238,15 @@ impl<'a, 'w, 's> Remapper<'a, 'w, 's> {
         let mut outgoing: DataByRank<Vec<Identified<SearchRequest>>> =
             DataByRank::from_communicator(&self.comm1);
         for rank in self.comm1.other_ranks() {
-            let extent = &self.extents[rank];
+            // Ranks without any remap data have no extent.
+            let extent = match &self.extents[rank] {
+                Some(extent) => extent,
+                None => continue,
+            };
             for request in chunk.iter() {
-                let local_squared_distance =
-                    local_map.get(&request.entity()).unwrap().squared_distance;
+                let local_squared_distance = local_map
+                    .get(&request.entity())
+                    .map_or(f64::INFINITY, |reply| reply.squared_distance);
                 if self.closer_particle_could_exist_on_other_rank(
                     extent,
                     &request.data,
@@ -263,13 +271,16 @@ impl<'a, 'w, 's> Remapper<'a, 'w, 's> {
         squared_distance_extent < squared_distance
     }
 
-    fn get_reply(&self, request: &SearchRequest) -> SearchReply {
+    fn get_reply(&self, request: &SearchRequest) -> Option<SearchReply> {
+        if self.data.is_empty() {
+            return None;
+        }
         let tree_coord = pos_to_tree_coord(&request.pos);
         let (squared_distance, index) = self.tree.nearest_one(&tree_coord, &squared_euclidean);
-        SearchReply {
+        Some(SearchReply {
             squared_distance,
             data: self.data[index].clone().into(),
-        }
+        })
     }
 }
 
@@ -305,14 +316,14 @@ fn exchange_according_to_domain_decomposition(
         .collect()
 }
 
-fn exchange_extents(data: &[FullRemapData]) -> DataByRank<Extent> {
+fn exchange_extents(data: &[FullRemapData]) -> DataByRank<Option<Extent>> {
     let mut extent_communicator = Communicator::<CommunicatedOption<Extent>>::new();
     let extent = Extent::from_positions(data.iter().map(|x| &*x.position));
     let all_extents = extent_communicator.all_gather(&extent.into());
     all_extents
         .into_iter()
         .enumerate()
-        .filter_map(|(i, x)| Option::<_>::from(x).map(|x| (i as i32, x)))
+        .map(|(i, x)| (i as i32, x.into()))
         .collect()
 }
 
-- 
2.43.0


From e11912264fd6f36b90243616dbf751b8bf81232c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:28 +0000
Subject: [PATCH 11/17] fix: read the files of a directory in a fixed order

Positions are in the first snapshot and temperatures in the last one: with different orders of the files in both directories, particles were remapped with the values of others.
---
 src/io/input/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/io/input/mod.rs b/src/io/input/mod.rs
index 3a49dca..d5da5f3 100644
--- a/src/io/input/mod.rs
+++ b/src/io/input/mod.rs
@@ -73,7 +73,7 @@ pub fn get_file_or_all_hdf5_files_in_path_if_dir(path: &Path) -> Vec<PathBuf> {
     if path.is_file() {
         vec![path.to_owned()]
     } else {
-        fs::read_dir(path)
+        let mut files: Vec<_> = fs::read_dir(path)
             .unwrap_or_else(|e| {
                 panic!("Error: {e} while trying to read remap path {path:?} as directory")
             })
@@ -87,7 +87,11 @@ pub fn get_file_or_all_hdf5_files_in_path_if_dir(path: &Path) -> Vec<PathBuf> {
                     None
                 }
             })
-            .collect()
+            .collect();
+        // The order of directory entries is arbitrary, but datasets of different
+        // snapshots (and different ranks) need to agree on the order of the files.
+        files.sort();
+        files
     }
 }
 
-- 
2.43.0


From 907c00dddd6db86c9390c6e3dd7d75245a798865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:23 +0000
Subject: [PATCH 12/17] fix: deliver corrections for inactive remote neighbours
 with the sweep

Corrections for remote neighbours which are not active were kept until
those were active again, while local neighbours receive theirs at once.
The photon rates of a cell in snapshots and time series therefore
depended on the domain decomposition.
---
 src/sweep/direction/mod.rs |  3 --
 src/sweep/mod.rs           | 62 ++++++++++++++++++++++----------------
 2 files changed, 36 insertions(+), 29 deletions(-)

diff --git a/src/sweep/direction/mod.rs b/src/sweep/direction/mod.rs
index 853d2da..6b9dfd6 100644
--- a/src/sweep/direction/mod.rs
+++ b/src/sweep/direction/mod.rs
@@ -171,9 +171,6 @@ pub(super) fn rotate_directions_system(
         remap(&mut site.outgoing_total_rate, &old_dirs, &new_dirs);
         remap(&mut site.periodic_source, &old_dirs, &new_dirs);
     }
-    for rates in solver.deferred.values_mut() {
-        remap(rates, &old_dirs, &new_dirs);
-    }
 }
 
 fn kernel_f(d1: &Direction, dirs: &[Direction]) -> Vec<f64> {
diff --git a/src/sweep/mod.rs b/src/sweep/mod.rs
index 384d30c..1f48a98 100644
--- a/src/sweep/mod.rs
+++ b/src/sweep/mod.rs
@@ -176,10 +176,9 @@ struct Sweep<C: Chemistry> {
     halo_levels: HashMap<ParticleId, TimestepLevel>,
     to_solve: PriorityQueue<Task>,
     to_send: DataByRank<Queue<RateData<C>>>,
-    /// Corrections (by direction) for remote neighbours which were
-    /// not active when the corrections were computed. The flag
-    /// distinguishes neighbours across a periodic boundary.
-    deferred: HashMap<(ParticleId, bool), Vec<Rate<C>>>,
+    /// Corrections for remote neighbours which are not active in the
+    /// current sweep. They are exchanged once it is over.
+    deferred: DataByRank<Queue<RateData<C>>>,
     to_solve_count: CountByDir,
     to_receive_count: DataByRank<usize>,
     timestep_state: TimestepState,
@@ -218,7 +217,7 @@ impl<C: Chemistry> Sweep<C> {
             halo_levels,
             to_solve: PriorityQueue::new(),
             to_send: DataByRank::from_size_and_rank(world_size, world_rank),
-            deferred: HashMap::default(),
+            deferred: DataByRank::from_size_and_rank(world_size, world_rank),
             directions,
             to_solve_count: CountByDir::empty(),
             to_receive_count: DataByRank::empty(),
@@ -285,6 +284,7 @@ impl<C: Chemistry> Sweep<C> {
             self.check_deadlock();
         }
         self.solve();
+        self.exchange_deferred();
         timers.stop(self.current_level);
         trace!("Level {:>2}: Updating chemistry.", self.current_level.0);
         self.update_chemistry(timers);
@@ -541,35 +541,45 @@ impl<C: Chemistry> Sweep<C> {
         );
     }
 
-    /// Inactive neighbours do not expect any messages, so a
-    /// correction for them is kept until they are active again. Since
-    /// their level is lower than that of the cell it comes from, that
-    /// cell is then active too.
+    /// Inactive neighbours do not expect any messages during the
+    /// sweep, so the corrections for them are exchanged afterwards.
     fn send_or_defer(
         &mut self,
         dir: DirectionIndex,
-        mut rate: Rate<C>,
+        rate: Rate<C>,
         rank: Rank,
         id: ParticleId,
         periodic: bool,
     ) {
-        if self.is_active(id) {
-            if let Some(deferred) = self.deferred.get_mut(&(id, periodic)) {
-                rate += std::mem::replace(&mut deferred[*dir], Rate::<C>::zero());
-            }
-            self.to_send[rank].push(RateData {
-                dir,
-                rate,
-                id,
-                periodic,
-            });
+        let queue = if self.is_active(id) {
+            &mut self.to_send[rank]
         } else {
-            let num_directions = self.directions.len();
-            let deferred = self
-                .deferred
-                .entry((id, periodic))
-                .or_insert_with(|| vec![Rate::<C>::zero(); num_directions]);
-            deferred[*dir] += rate;
+            &mut self.deferred[rank]
+        };
+        queue.push(RateData {
+            dir,
+            rate,
+            id,
+            periodic,
+        });
+    }
+
+    fn exchange_deferred(&mut self) {
+        let mut communicator =
+            ExchangeCommunicator::from(MpiWorld::<RateData<C>>::new_custom_tag(91101));
+        let received = communicator.exchange_all(std::mem::replace(
+            &mut self.deferred,
+            DataByRank::from_communicator(&communicator),
+        ));
+        for (_, rates) in received.iter() {
+            for d in rates.iter() {
+                let site = self.sites.get_mut(d.id);
+                if d.periodic {
+                    site.periodic_source[*d.dir] += d.rate.clone();
+                } else {
+                    site.incoming_total_rate[*d.dir] += d.rate.clone();
+                }
+            }
         }
     }
 
-- 
2.43.0


From b568ee182957c2d5e0c4a117e8f1bbcba6eb096c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:46 +0000
Subject: [PATCH 13/17] fix: use fluxes through periodic boundaries as input of
 the next sweep

Corrections through periodic boundaries were added to the rates of cells
while the sweep was running. Whether a cell used those of the same sweep
depended on the order of the tasks and messages, so that the results
depended on the schedule and the domain decomposition.
---
 src/sweep/mod.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/sweep/mod.rs b/src/sweep/mod.rs
index 1f48a98..44261ab 100644
--- a/src/sweep/mod.rs
+++ b/src/sweep/mod.rs
@@ -179,6 +179,9 @@ struct Sweep<C: Chemistry> {
     /// Corrections for remote neighbours which are not active in the
     /// current sweep. They are exchanged once it is over.
     deferred: DataByRank<Queue<RateData<C>>>,
+    /// Corrections for local cells through the periodic boundary.
+    /// These are used as input for the next sweep.
+    periodic_corrections: Queue<RateData<C>>,
     to_solve_count: CountByDir,
     to_receive_count: DataByRank<usize>,
     timestep_state: TimestepState,
@@ -218,6 +221,7 @@ impl<C: Chemistry> Sweep<C> {
             to_solve: PriorityQueue::new(),
             to_send: DataByRank::from_size_and_rank(world_size, world_rank),
             deferred: DataByRank::from_size_and_rank(world_size, world_rank),
+            periodic_corrections: Queue::new(),
             directions,
             to_solve_count: CountByDir::empty(),
             to_receive_count: DataByRank::empty(),
@@ -284,6 +288,7 @@ impl<C: Chemistry> Sweep<C> {
             self.check_deadlock();
         }
         self.solve();
+        self.apply_periodic_corrections();
         self.exchange_deferred();
         timers.stop(self.current_level);
         trace!("Level {:>2}: Updating chemistry.", self.current_level.0);
@@ -513,8 +518,19 @@ impl<C: Chemistry> Sweep<C> {
         dir: DirectionIndex,
         neighbour: ParticleId,
     ) {
-        let site = self.sites.get_mut(neighbour);
-        site.periodic_source[*dir] += incoming_rate_correction;
+        self.periodic_corrections.push(RateData {
+            id: neighbour,
+            dir,
+            rate: incoming_rate_correction,
+            periodic: true,
+        });
+    }
+
+    fn apply_periodic_corrections(&mut self) {
+        for d in std::mem::take(&mut self.periodic_corrections) {
+            let site = self.sites.get_mut(d.id);
+            site.periodic_source[*d.dir] += d.rate;
+        }
     }
 
     fn handle_remote_neighbour(
-- 
2.43.0


From 7d8caa68958d78d834921c29604a23359e3cc7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:25 +0000
Subject: [PATCH 14/17] fix: keep the floor of the ionized fraction away from 0
 and 1

If cooling is prevented, the initial ionized fraction is used as the
floor. With a value of exactly 0 the relative change of the fraction was
infinite for any time step, so that the gas was never ionized, and a
value above the upper limit made f64::clamp panic.
---
 src/chemistry/hydrogen_only/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/chemistry/hydrogen_only/mod.rs b/src/chemistry/hydrogen_only/mod.rs
index ede3c1d..9f8ec9c 100644
--- a/src/chemistry/hydrogen_only/mod.rs
+++ b/src/chemistry/hydrogen_only/mod.rs
@@ -357,7 +357,11 @@ impl Solver {
         let xhii_floor = self
             .floor
             .map(|(_, xhii)| *xhii)
-            .unwrap_or(IONIZED_HYDROGEN_FRACTION_EPSILON);
+            .unwrap_or(IONIZED_HYDROGEN_FRACTION_EPSILON)
+            .clamp(
+                IONIZED_HYDROGEN_FRACTION_EPSILON,
+                1.0 - IONIZED_HYDROGEN_FRACTION_EPSILON,
+            );
         self.ionized_hydrogen_fraction = self
             .ionized_hydrogen_fraction
             .clamp(xhii_floor, 1.0 - IONIZED_HYDROGEN_FRACTION_EPSILON);
-- 
2.43.0


From fc0e005cb2397940ab9c82110ebf48eef7444dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:41 +0000
Subject: [PATCH 15/17] fix: photoionization rate for the time series whatever
 the fields of the snapshots

The component was only there if it was chosen as a field for the snapshots;
otherwise both averages of the rate were silently zero.
---
 src/sweep/mod.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/sweep/mod.rs b/src/sweep/mod.rs
index 44261ab..14aa9a4 100644
--- a/src/sweep/mod.rs
+++ b/src/sweep/mod.rs
@@ -159,12 +159,13 @@ impl SubsweepPlugin for SweepPlugin {
             )
             .add_startup_system_to_stage(StartupStages::InitSweep, show_num_directions_system);
         }
-        init_optional_chemistry_component::<HeatingRate>(sim);
-        init_optional_chemistry_component::<RecombinationRate>(sim);
-        init_optional_chemistry_component::<CollisionalIonizationRate>(sim);
-        init_optional_chemistry_component::<PhotoionizationRate>(sim);
-        init_optional_component::<Timestep>(sim);
-        init_optional_component::<IonizationTime>(sim);
+        init_optional_chemistry_component::<HeatingRate>(sim, false);
+        init_optional_chemistry_component::<RecombinationRate>(sim, false);
+        init_optional_chemistry_component::<CollisionalIonizationRate>(sim, false);
+        // The time series need the rate even if it is not written to snapshots.
+        init_optional_chemistry_component::<PhotoionizationRate>(sim, true);
+        init_optional_component::<Timestep>(sim, false);
+        init_optional_component::<IonizationTime>(sim, false);
     }
 }
 
@@ -800,7 +801,7 @@ fn initialize_optional_component_system<C: Component + Named + Default>(
     }
 }
 
-fn init_optional_component<C>(sim: &mut Simulation) -> bool
+fn init_optional_component<C>(sim: &mut Simulation, is_required: bool) -> bool
 where
     C: Equivalence + ToDataset + H5Type + Clone + Component + Named + Default,
     <C as Equivalence>::Out: MatchesRaw,
@@ -809,23 +810,23 @@ where
     if !sim.contains_resource::<OutputParameters>() {
         return false;
     }
-    let is_desired = is_desired_field::<C>(sim);
-    if is_desired {
+    let is_needed = is_required || is_desired_field::<C>(sim);
+    if is_needed {
         sim.add_derived_component::<C>();
         sim.add_startup_system_to_stage(
             StartupStages::InsertDerivedComponents,
             initialize_optional_component_system::<C>,
         );
     }
-    is_desired
+    is_needed
 }
 
-fn init_optional_chemistry_component<C>(sim: &mut Simulation)
+fn init_optional_chemistry_component<C>(sim: &mut Simulation, is_required: bool)
 where
     C: Equivalence + ToDataset + H5Type + Clone + Component + Named + Default + ChemistryOutputType,
     <C as Equivalence>::Out: MatchesRaw,
 {
-    if init_optional_component::<C>(sim) {
+    if init_optional_component::<C>(sim, is_required) {
         sim.add_system_to_stage(
             Stages::Sweep,
             sweep_optional_output_system::<C>.after(run_sweep_system),
-- 
2.43.0


From 4ed275b0ce34e3d26986666a35bfad352fcdd92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:43 +0000
Subject: [PATCH 16/17] fix: rotate the directions after the output quantities
 are computed

The order of the rotation and the systems that compute photoionization,
recombination, collisional ionization and heating rates was left open, so that
these could be computed from the rates of a sweep in other directions.
---
 src/sweep/mod.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/sweep/mod.rs b/src/sweep/mod.rs
index 14aa9a4..fe6f250 100644
--- a/src/sweep/mod.rs
+++ b/src/sweep/mod.rs
@@ -142,10 +142,8 @@ impl SubsweepPlugin for SweepPlugin {
             .add_parameter_type_and_get_result::<SweepParameters>();
         if parameters.rotate_directions {
             init_directions_rng(sim);
-            sim.add_system_to_stage(
-                Stages::Sweep,
-                rotate_directions_system.after(run_sweep_system),
-            );
+            // After everything that depends on the rates in the current directions
+            sim.add_system_to_stage(Stages::AfterSweep, rotate_directions_system);
         }
         if sim.write_output {
             sim.add_system_to_stage(
-- 
2.43.0


From dca49f0551238ce0343e1e0b849fa2eda6c95309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:43 +0000
Subject: [PATCH 17/17] fix: do not mix up the rates of different directions
 after a rotation

The remapping of the rates only kept those of one direction, and the rates
that were kept did not belong to the fluxes between neighbours in the new
directions, which are updated incrementally. Fluxes between cells are now
computed from scratch; what crossed the periodic boundary is carried on in the
nearest of the new directions, and replaced with the following sweep.
---
 src/sweep/direction/mod.rs | 19 +++++++++++++------
 src/sweep/mod.rs           | 13 +++++++++++++
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/sweep/direction/mod.rs b/src/sweep/direction/mod.rs
index 6b9dfd6..413c566 100644
--- a/src/sweep/direction/mod.rs
+++ b/src/sweep/direction/mod.rs
@@ -166,11 +166,20 @@ pub(super) fn rotate_directions_system(
         multiply_by_matrix(&mut dir.0 .0, &matrix)
     }
     let new_dirs = solver.directions.directions.clone();
+    // The fluxes between cells belong to the old directions. Since all
+    // cells are active in the first sweep of the next step, they are
+    // computed from scratch for the new directions. What has crossed
+    // the periodic boundary is the input of that sweep.
     for site in solver.sites.iter_mut() {
-        remap(&mut site.incoming_total_rate, &old_dirs, &new_dirs);
-        remap(&mut site.outgoing_total_rate, &old_dirs, &new_dirs);
+        reset(&mut site.incoming_total_rate);
+        reset(&mut site.outgoing_total_rate);
         remap(&mut site.periodic_source, &old_dirs, &new_dirs);
     }
+    solver.periodic_source_outdated = true;
+}
+
+fn reset(values: &mut [<HydrogenOnly as Chemistry>::Photons]) {
+    values.fill(<HydrogenOnly as Chemistry>::Photons::zero());
 }
 
 fn kernel_f(d1: &Direction, dirs: &[Direction]) -> Vec<f64> {
@@ -194,13 +203,11 @@ fn remap(
 ) {
     let num_dirs = old_dirs.len();
     let kernel = (0..num_dirs)
-        .map(|i| kernel_f(&old_dirs[i], &new_dirs))
+        .map(|i| kernel_f(&new_dirs[i], &old_dirs))
         .collect::<Vec<_>>();
     let old_values = values.iter().cloned().collect::<Vec<_>>();
     for i in 0..num_dirs {
-        for j in 0..num_dirs {
-            values[i] = old_values[j] * kernel[i][j];
-        }
+        values[i] = (0..num_dirs).map(|j| old_values[j] * kernel[i][j]).sum();
     }
 }
 
diff --git a/src/sweep/mod.rs b/src/sweep/mod.rs
index fe6f250..1b5d203 100644
--- a/src/sweep/mod.rs
+++ b/src/sweep/mod.rs
@@ -181,6 +181,9 @@ struct Sweep<C: Chemistry> {
     /// Corrections for local cells through the periodic boundary.
     /// These are used as input for the next sweep.
     periodic_corrections: Queue<RateData<C>>,
+    /// Whether the periodic sources are those of directions before a
+    /// rotation. Then they are replaced with the next sweep.
+    periodic_source_outdated: bool,
     to_solve_count: CountByDir,
     to_receive_count: DataByRank<usize>,
     timestep_state: TimestepState,
@@ -221,6 +224,7 @@ impl<C: Chemistry> Sweep<C> {
             to_send: DataByRank::from_size_and_rank(world_size, world_rank),
             deferred: DataByRank::from_size_and_rank(world_size, world_rank),
             periodic_corrections: Queue::new(),
+            periodic_source_outdated: false,
             directions,
             to_solve_count: CountByDir::empty(),
             to_receive_count: DataByRank::empty(),
@@ -287,6 +291,7 @@ impl<C: Chemistry> Sweep<C> {
             self.check_deadlock();
         }
         self.solve();
+        self.discard_outdated_periodic_source();
         self.apply_periodic_corrections();
         self.exchange_deferred();
         timers.stop(self.current_level);
@@ -525,6 +530,14 @@ impl<C: Chemistry> Sweep<C> {
         });
     }
 
+    fn discard_outdated_periodic_source(&mut self) {
+        if std::mem::take(&mut self.periodic_source_outdated) {
+            for site in self.sites.iter_mut() {
+                site.periodic_source.fill(C::Photons::zero());
+            }
+        }
+    }
+
     fn apply_periodic_corrections(&mut self) {
         for d in std::mem::take(&mut self.periodic_corrections) {
             let site = self.sites.get_mut(d.id);
-- 
2.43.0

