From 8fb48a4c5332dc1d61830c6ca2931508564c49f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:03 +0000
Subject: [PATCH 01/24] fix: concurrent first insertions could leave unlinked
 points

Several threads inserting in an empty structure could all see no entry point
(or return early because their point had rank 1) and store points that were
never linked, hence never found by a search.
---
 src/hnsw.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index d23eb58..ffedb53 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -1057,7 +1057,7 @@ impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
         let (data, origin_id) = data_with_id;
         let keep_pruned = self.keep_pruned;
         // insert in indexation and get point_id adn generate a new entry_point if necessary
-        let (new_point, point_rank) = self
+        let (new_point, _point_rank) = self
             .layer_indexed_points
             .generate_new_point(data, origin_id);
         trace!("Hnsw insert generated new point {:?} ", new_point.p_id);
@@ -1071,20 +1071,28 @@ impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
             // I open a read lock on an option
             if let Some(arc_point) = self.layer_indexed_points.entry_point.read().as_ref() {
                 enter_point_copy = Some(Arc::clone(arc_point));
-                if point_rank == 1 {
+                max_level_observed = arc_point.p_id.0;
+            }
+        }
+        if enter_point_copy.is_none() {
+            // No entry point yet. Another thread can be inserting its first point too, so we must check again
+            // under a write lock : only one point can become the first entry point without being linked to others.
+            let mut entry_point_ref = self.layer_indexed_points.entry_point.write();
+            match entry_point_ref.as_ref() {
+                Some(arc_point) => {
+                    enter_point_copy = Some(Arc::clone(arc_point));
+                    max_level_observed = arc_point.p_id.0;
+                }
+                None => {
                     debug!(
                         "Hnsw  stored first point , direct return  {:?} ",
                         new_point.p_id
                     );
+                    *entry_point_ref = Some(Arc::clone(&new_point));
                     return;
                 }
-                max_level_observed = enter_point_copy.as_ref().unwrap().p_id.0;
             }
         }
-        if enter_point_copy.is_none() {
-            self.layer_indexed_points.check_entry_point(&new_point);
-            return;
-        }
         let mut dist_to_entry = self
             .dist_f
             .eval(data, enter_point_copy.as_ref().unwrap().data.get_v());
-- 
2.43.0


From ce895ec093a6071d644b8e06d2ce081edf59cfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:03 +0000
Subject: [PATCH 02/24] fix: reverse links must be added in the layer of the
 link

The reverse update was always done at the level of the new point, so a point
of level > 0 got no incoming link in the layers below and could be missed by
searches in layer 0.
---
 src/hnsw.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index ffedb53..900ce2d 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -1235,9 +1235,9 @@ impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
                     let q_point = &q.point_ref;
                     let mut q_point_neighbours = q_point.neighbours.write();
                     let n_to_add = PointWithOrder::<T>::new(&Arc::clone(&new_point), q.dist_to_ref);
-                    // must be sure that we add a point at the correct level. See the comment to search_layer!
-                    // this ensures that reverse updating do not add problems.
-                    let l_n = n_to_add.point_ref.p_id.0 as usize;
+                    // new_point belongs to every layer l <= level and was linked to q in layer l, so the
+                    // reverse link must be in the same layer l.
+                    let l_n = l as usize;
                     let already = q_point_neighbours[l_n]
                         .iter()
                         .position(|old| old.point_ref.p_id == new_point.p_id);
-- 
2.43.0


From 5c6d786450927b092e3de8c5dbd357b048427d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:03 +0000
Subject: [PATCH 03/24] fix: link points in a layer where no point is stored
 yet

search_layer returned nothing as long as no point had exactly that level, so
the first points of upper layers stayed unlinked in the layers below and layer 0
could be disconnected.
---
 src/hnsw.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index 900ce2d..2c9d186 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -930,11 +930,8 @@ impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
         // we will store positive distances in this one
         let mut return_points = BinaryHeap::<Arc<PointWithOrder<T>>>::with_capacity(skiplist_size);
         //
-        if self.layer_indexed_points.points_by_layer.read()[layer as usize].is_empty() {
-            // at the beginning we can have nothing in layer
-            trace!("search layer {:?}, empty layer", layer);
-            return return_points;
-        }
+        // Note : points_by_layer[layer] can be empty at the beginning, as a point is stored only in its highest layer.
+        // But points of upper layers are also in this layer, so we must search from entry_point in any case.
         if entry_point.p_id.1 < 0 {
             trace!("search layer negative point id : {:?}", entry_point.p_id);
             return return_points;
-- 
2.43.0


From 921b5279f3a5382c22ac69a51b36cc6a9cc1a509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:03 +0000
Subject: [PATCH 04/24] fix: deadlock between concurrent reverse neighbourhood
 updates

A thread held a read lock on the neighbours of its new point while asking for a
write lock on another point. Two insertions linking each other could wait forever.
---
 src/hnsw.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index 2c9d186..229fd2d 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -1226,7 +1226,10 @@ impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
         );
         let level = new_point.p_id.0;
         for l in (0..level + 1).rev() {
-            for q in &new_point.neighbours.read()[l as usize] {
+            // we must not hold the lock on new_point neighbours while asking for a write lock on the neighbours of q :
+            // another thread updating in the other direction would deadlock with us.
+            let new_point_neighbours = new_point.neighbours.read()[l as usize].clone();
+            for q in &new_point_neighbours {
                 if new_point.p_id != q.point_ref.p_id {
                     // as new point is in global table, do not loop and deadlock!!
                     let q_point = &q.point_ref;
-- 
2.43.0


From 34e8dfb9f4e058156f300faba7a33cf108ace466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:03 +0000
Subject: [PATCH 05/24] fix: search_filter could return a point rejected by the
 filter

The starting point of the search in the layer was returned when no point accepted
by the filter replaced it. Also avoid a panic with knbn = ef = 0.
---
 src/hnsw.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index 229fd2d..9429ccf 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -1511,7 +1511,7 @@ impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
             }
         } // end on for on layers
           // ef must be greater than knbn. Possibly it should be between knbn and self.max_nb_connection
-        let ef = ef_arg.max(knbn);
+        let ef = ef_arg.max(knbn).max(1);
         log::debug!("pivot changed , current pivot {:?}", pivot.get_point_id());
         // search lowest non empty layer (in case of search with incomplete lower layer at beginning of hnsw filling)
         let mut l = 0u8;
@@ -1524,7 +1524,11 @@ impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
         // now search with asked ef in lower layer
         let neighbours_heap = self.search_layer(data, pivot, ef, layer_to_search, filter);
         // go from heap of points with negative dist to a sorted vec of increasing points with > 0 distances.
-        let neighbours = neighbours_heap.into_sorted_vec();
+        let mut neighbours = neighbours_heap.into_sorted_vec();
+        // the point from which the search in layer started is always in heap, even if rejected by filter
+        if let Some(f) = filter {
+            neighbours.retain(|p| f.hnsw_filter(&p.point_ref.origin_id));
+        }
         // get the min of K and ef points into a vector.
         //
         let last = knbn.min(ef).min(neighbours.len());
-- 
2.43.0


From 16efa7dc85b9e061debc6e8d182302b87c448458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:03 +0000
Subject: [PATCH 06/24] fix: IterPoint deadlock with a waiting insertion and
 panic on empty index

next() took a second read lock on points_by_layer while holding the first one,
and unwrapped the entry point.
---
 src/hnsw.rs | 36 ++++++++++++------------------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index 9429ccf..d67b1c4 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -624,7 +624,7 @@ impl<'b, T: Clone + Send + Sync> PointIndexation<'b, T> {
 /// The iteration begins at level 0 (most populated level) and goes upward in levels.
 /// The iterator takes a ReadGuard on the PointIndexation structure
 pub struct IterPoint<'a, 'b, T: Clone + Send + Sync + 'b> {
-    point_indexation: &'a PointIndexation<'b, T>,
+    _point_indexation: &'a PointIndexation<'b, T>,
     pi_guard: RwLockReadGuard<'a, Vec<Layer<'b, T>>>,
     layer: i64,
     slot_in_layer: i64,
@@ -634,7 +634,7 @@ impl<'a, 'b, T: Clone + Send + Sync> IterPoint<'a, 'b, T> {
     pub fn new(point_indexation: &'a PointIndexation<'b, T>) -> Self {
         let pi_guard: RwLockReadGuard<Vec<Layer<'b, T>>> = point_indexation.points_by_layer.read();
         IterPoint {
-            point_indexation,
+            _point_indexation: point_indexation,
             pi_guard,
             layer: -1,
             slot_in_layer: -1,
@@ -651,32 +651,20 @@ impl<'b, T: Clone + Send + Sync> Iterator for IterPoint<'_, 'b, T> {
             self.layer = 0;
             self.slot_in_layer = 0;
         }
-        if (self.slot_in_layer as usize) < self.pi_guard[self.layer as usize].len() {
-            let slot = self.slot_in_layer as usize;
-            self.slot_in_layer += 1;
-            Some(self.pi_guard[self.layer as usize][slot].clone())
-        } else {
-            self.slot_in_layer = 0;
-            self.layer += 1;
-            // must reach a non empty layer if possible
-            let entry_point_ref = self.point_indexation.entry_point.read();
-            let points_by_layer = self.point_indexation.points_by_layer.read();
-            let entry_point_level = entry_point_ref.as_ref().unwrap().p_id.0;
-            while (self.layer as u8) <= entry_point_level
-                && points_by_layer[self.layer as usize].is_empty()
-            {
-                self.layer += 1;
-            }
-            // now here either  (self.layer as u8) > self.point_indexation.max_level_observed
-            // or self.point_indexation.points_by_layer[self.layer as usize ].len() > 0
-            if (self.layer as u8) <= entry_point_level {
+        // All accesses go through pi_guard. Asking again for a read lock on points_by_layer would deadlock
+        // if an insertion is waiting for the write lock.
+        while (self.layer as usize) < self.pi_guard.len() {
+            let layer = &self.pi_guard[self.layer as usize];
+            if (self.slot_in_layer as usize) < layer.len() {
                 let slot = self.slot_in_layer as usize;
                 self.slot_in_layer += 1;
-                Some(points_by_layer[self.layer as usize][slot].clone())
-            } else {
-                None
+                return Some(layer[slot].clone());
             }
+            // must reach a non empty layer if possible
+            self.slot_in_layer = 0;
+            self.layer += 1;
         }
+        None
     } // end of next
 } // end of impl Iterator
 
-- 
2.43.0


From e79518bd88ce21628cd97c96ef37e547be842e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 07/24] fix: level scale was multiplied by 1/ln(M) at each
 reload

The dump stores the scale itself, but the reload used it as a factor of the
default scale, so levels of points inserted after a reload had another law.
---
 src/hnsw.rs   | 11 +++--------
 src/hnswio.rs | 11 ++++++-----
 2 files changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index d67b1c4..a272b58 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -333,17 +333,12 @@ impl LayerGenerator {
         }
     }
 
-    // new when we know scale used. Should replace the one without scale
-    pub(crate) fn new_with_scale(
-        max_nb_connection: usize,
-        scale_factor: f64,
-        maxlevel: usize,
-    ) -> Self {
-        let scale_default = 1. / (max_nb_connection as f64).ln();
+    // new when we know the (absolute) scale used, as returned by get_level_scale.
+    pub(crate) fn new_with_scale(scale: f64, maxlevel: usize) -> Self {
         LayerGenerator {
             rng: Arc::new(Mutex::new(StdRng::from_entropy())),
             unif: Uniform::<f64>::new(0., 1.),
-            scale: scale_default * scale_factor,
+            scale,
             maxlevel,
         }
     }
diff --git a/src/hnswio.rs b/src/hnswio.rs
index ea845f5..c10cc61 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -770,11 +770,12 @@ impl HnswIo {
             max_nb_connection: descr.max_nb_connection as usize,
             max_layer: NB_LAYER_MAX as usize,
             points_by_layer: Arc::new(RwLock::new(points_by_layer)),
-            layer_g: LayerGenerator::new_with_scale(
-                descr.max_nb_connection as usize,
-                descr.level_scale,
-                NB_LAYER_MAX as usize,
-            ),
+            // the scale itself is dumped since format 4. Before, the default one was always used.
+            layer_g: if descr.format_version >= 4 {
+                LayerGenerator::new_with_scale(descr.level_scale, NB_LAYER_MAX as usize)
+            } else {
+                LayerGenerator::new(descr.max_nb_connection as usize, NB_LAYER_MAX as usize)
+            },
             nb_point: Arc::new(RwLock::new(nb_points_loaded)), // CAVEAT , we should increase , the whole thing is to be able to increment graph ?
             entry_point: Arc::new(RwLock::new(Some(entry_point))),
         };
-- 
2.43.0


From ee8e9d7a8a218bc74293bfcb9ddf3a075611cc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:11 +0000
Subject: [PATCH 08/24] fix: reload of vectors of different lengths

Reload (in memory or by DataMap) used the dimension of the entry point for every
vector, truncating longer vectors and reading out of bounds for shorter ones.
The length of each record is now used.
---
 src/datamap.rs | 56 +++++++++++++++++---------------------------------
 src/hnswio.rs  | 26 +++++++++++++++++++----
 2 files changed, 41 insertions(+), 41 deletions(-)

diff --git a/src/datamap.rs b/src/datamap.rs
index 3bce7c3..58567f2 100644
--- a/src/datamap.rs
+++ b/src/datamap.rs
@@ -30,8 +30,6 @@ pub struct DataMap {
     hmap: IndexMap<DataId, usize>,
     /// type name of Data
     t_name: String,
-    /// dimension of data vector
-    dimension: usize,
     //
     distname: String,
 } // end of DataMap
@@ -96,7 +94,7 @@ impl DataMap {
             error!("Could not open file : {:?}", &datapath);
             std::process::exit(1);
         }
-        let fsize = meta.unwrap().len().try_into().unwrap();
+        let fsize: usize = meta.unwrap().len().try_into().unwrap();
         //
         let file_res = File::open(&datapath);
         if file_res.is_err() {
@@ -148,36 +146,31 @@ impl DataMap {
         }
         //
         // now we know that each record consists in
-        //   - MAGICDATAP (u32), DataId  (u64), dimension (u64) and then  (length of type in bytes * dimension)
-        //
-        let record_size = std::mem::size_of::<u32>()
-            + 2 * std::mem::size_of::<u64>()
-            + dimension * std::mem::size_of::<T>();
-        let residual = mmap.size() - current_mmap_addr;
-        info!(
-            "Mmap size {}, current_mmap_addr {}, residual : {}",
-            mmap.size(),
-            current_mmap_addr,
-            residual
-        );
-        let nb_record = residual / record_size;
-        debug!("Record size : {}, nb_record : {}", record_size, nb_record);
-        // allocate hmap with correct capacity
-        let mut hmap = IndexMap::<DataId, usize>::with_capacity(nb_record);
+        //   - MAGICDATAP (u32), DataId  (u64), length in bytes (u64) and then the vector of T.
+        // All data do not have necessarily the same dimension (Levenshtein for example).
+        let record_header_size = std::mem::size_of::<u32>() + 2 * std::mem::size_of::<u64>();
+        let mut hmap = IndexMap::<DataId, usize>::new();
         // fill hmap to have address of each data point in file
         let mut u64_slice = [0u8; std::mem::size_of::<u64>()];
         //
         // now we loop on records
         //
-        for i in 0..nb_record {
-            debug!("Record i : {}, addr : {}", i, current_mmap_addr);
+        while current_mmap_addr < fsize {
+            debug!("Record addr : {}", current_mmap_addr);
+            if fsize - current_mmap_addr < record_header_size {
+                error!("Truncated record at end of file : {:?}", &datapath);
+                return Err(String::from("truncated data file"));
+            }
             // decode Magic
             u32_slice.copy_from_slice(
                 &mapped_slice[current_mmap_addr..current_mmap_addr + std::mem::size_of::<u32>()],
             );
             current_mmap_addr += std::mem::size_of::<u32>();
             let magic = u32::from_ne_bytes(u32_slice);
-            assert_eq!(magic, MAGICDATAP, "magic not equal to MAGICDATAP in mmap");
+            if magic != MAGICDATAP {
+                error!("magic not equal to MAGICDATAP in mmap");
+                return Err(String::from("bad magic in data file"));
+            }
             // decode DataId
             u64_slice.copy_from_slice(
                 &mapped_slice[current_mmap_addr..current_mmap_addr + std::mem::size_of::<u64>()],
@@ -196,21 +189,11 @@ impl DataMap {
             );
             current_mmap_addr += std::mem::size_of::<u64>();
             let serialized_len = u64::from_ne_bytes(u64_slice) as usize;
-            if i == 0 {
-                debug!("serialized bytes len to reload {:?}", serialized_len);
+            if serialized_len > fsize - current_mmap_addr {
+                error!("Truncated record at end of file : {:?}", &datapath);
+                return Err(String::from("truncated data file"));
             }
-            let mut v_serialized = vec![0; serialized_len];
-            v_serialized.copy_from_slice(
-                &mapped_slice[current_mmap_addr..current_mmap_addr + serialized_len],
-            );
             current_mmap_addr += serialized_len;
-            let slice_t =
-                unsafe { std::slice::from_raw_parts(v_serialized.as_ptr() as *const T, dimension) };
-            trace!(
-                "Deserialized v : {:?} address : {:?} ",
-                slice_t,
-                v_serialized.as_ptr() as *const T
-            );
         } // end of for on record
           //
         debug!("End of DataMap::from_hnsw.");
@@ -220,7 +203,6 @@ impl DataMap {
             mmap,
             hmap,
             t_name,
-            dimension: descr_dimension,
             distname,
         };
         //
@@ -286,7 +268,7 @@ impl DataMap {
         let slice_t = unsafe {
             std::slice::from_raw_parts(
                 mapped_slice[current_mmap_addr..].as_ptr() as *const T,
-                self.dimension,
+                serialized_len / std::mem::size_of::<T>(),
             )
         };
         Some(slice_t)
diff --git a/src/hnswio.rs b/src/hnswio.rs
index c10cc61..ee7b023 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -1158,10 +1158,28 @@ where
         match descr.format_version {
             2 => bincode::deserialize(&v_serialized).unwrap(),
             3 | 4 => {
-                let slice_t = unsafe {
-                    std::slice::from_raw_parts(v_serialized.as_ptr() as *const T, descr.dimension)
-                };
-                slice_t.to_vec()
+                // vectors can have different lengths (Levenshtein for example), so the number of elements
+                // comes from the record and not from descr.dimension
+                let size_t = std::mem::size_of::<T>();
+                if size_t == 0 || v_serialized.len() % size_t != 0 {
+                    return Err(anyhow!(
+                        "bad data length {} for point {}",
+                        v_serialized.len(),
+                        origin_id
+                    ));
+                }
+                let nb_t = v_serialized.len() / size_t;
+                let mut v = Vec::<T>::with_capacity(nb_t);
+                // v is aligned on T, v_serialized is not necessarily
+                unsafe {
+                    std::ptr::copy_nonoverlapping(
+                        v_serialized.as_ptr(),
+                        v.as_mut_ptr() as *mut u8,
+                        v_serialized.len(),
+                    );
+                    v.set_len(nb_t);
+                }
+                v
             }
             _ => {
                 error!(
-- 
2.43.0


From a00e5824f16045a5a0f10c6626e4f522becd204f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:12 +0000
Subject: [PATCH 09/24] fix: misaligned slices on mmapped data of 8 bytes types

Records are aligned on 4 bytes in the data file. Data not aligned for their type
are now copied by DataMap.
---
 src/datamap.rs | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/datamap.rs b/src/datamap.rs
index 58567f2..168f5de 100644
--- a/src/datamap.rs
+++ b/src/datamap.rs
@@ -10,6 +10,8 @@ use std::io::BufReader;
 use std::fs::{File, OpenOptions};
 use std::path::{Path, PathBuf};
 
+use std::collections::HashMap;
+
 use indexmap::map::IndexMap;
 use log::{debug, error, info, trace};
 use mmap_rs::{Mmap, MmapOptions};
@@ -28,6 +30,8 @@ pub struct DataMap {
     mmap: Mmap,
     /// map a dataId to an address where we get a bson encoded vector of type T
     hmap: IndexMap<DataId, usize>,
+    /// copy of data that are not aligned in file as required by their type (8 bytes types), accessed by their address in file.
+    realigned: HashMap<usize, Vec<u128>>,
     /// type name of Data
     t_name: String,
     //
@@ -150,6 +154,7 @@ impl DataMap {
         // All data do not have necessarily the same dimension (Levenshtein for example).
         let record_header_size = std::mem::size_of::<u32>() + 2 * std::mem::size_of::<u64>();
         let mut hmap = IndexMap::<DataId, usize>::new();
+        let mut realigned = HashMap::<usize, Vec<u128>>::new();
         // fill hmap to have address of each data point in file
         let mut u64_slice = [0u8; std::mem::size_of::<u64>()];
         //
@@ -193,6 +198,19 @@ impl DataMap {
                 error!("Truncated record at end of file : {:?}", &datapath);
                 return Err(String::from("truncated data file"));
             }
+            // The record headers keep data aligned on 4 bytes only. We cannot make a slice on data not correctly aligned.
+            let bytes = &mapped_slice[current_mmap_addr..current_mmap_addr + serialized_len];
+            if bytes.as_ptr() as usize % std::mem::align_of::<T>() != 0 {
+                let mut copy = vec![0u128; serialized_len.div_ceil(std::mem::size_of::<u128>())];
+                unsafe {
+                    std::ptr::copy_nonoverlapping(
+                        bytes.as_ptr(),
+                        copy.as_mut_ptr() as *mut u8,
+                        serialized_len,
+                    );
+                }
+                realigned.insert(current_mmap_addr, copy);
+            }
             current_mmap_addr += serialized_len;
         } // end of for on record
           //
@@ -202,6 +220,7 @@ impl DataMap {
             _datapath: datapath,
             mmap,
             hmap,
+            realigned,
             t_name,
             distname,
         };
@@ -265,11 +284,12 @@ impl DataMap {
         let serialized_len = u64::from_ne_bytes(u64_slice) as usize;
         current_mmap_addr += std::mem::size_of::<u64>();
         trace!("Serialized bytes len to reload {:?}", serialized_len);
+        let data_ptr = match self.realigned.get(&current_mmap_addr) {
+            Some(copy) => copy.as_ptr() as *const T,
+            None => mapped_slice[current_mmap_addr..].as_ptr() as *const T,
+        };
         let slice_t = unsafe {
-            std::slice::from_raw_parts(
-                mapped_slice[current_mmap_addr..].as_ptr() as *const T,
-                serialized_len / std::mem::size_of::<T>(),
-            )
+            std::slice::from_raw_parts(data_ptr, serialized_len / std::mem::size_of::<T>())
         };
         Some(slice_t)
     }
-- 
2.43.0


From 49e49104b999bce3648ced1fcc7cf2c8b472cc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:13 +0000
Subject: [PATCH 10/24] fix: DataMap::from_hnswdump with a relative directory

The directory was pushed twice in the path of the graph file.
---
 src/datamap.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/datamap.rs b/src/datamap.rs
index 168f5de..a7355f7 100644
--- a/src/datamap.rs
+++ b/src/datamap.rs
@@ -49,7 +49,6 @@ impl DataMap {
     ) -> Result<DataMap, String> {
         // reload description to have data type, and check for dump version
         let mut graphpath = PathBuf::from(dir);
-        graphpath.push(dir);
         let mut filename = file_name.to_string();
         filename.push_str(".hnsw.graph");
         graphpath.push(filename);
-- 
2.43.0


From 0469844b153a203a3149d673a52ff21b9a1aa03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:16 +0000
Subject: [PATCH 11/24] fix: panic at reload when mmap is asked but not
 initialized

This occurred with load_hnsw_with_dist, with NoData, or if DataMap failed.
---
 src/hnswio.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hnswio.rs b/src/hnswio.rs
index ee7b023..3651e12 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -652,6 +652,8 @@ impl HnswIo {
         let mut nb_points_loaded: usize = 0;
         let mut nb_still_to_load = descr.nb_point as i64;
         let (use_mmap, max_nbpoint_in_memory) = self.options.use_mmap();
+        // if mmap was not possible (or not initialized as in load_hnsw_with_dist) all points are loaded in memory
+        let use_mmap = use_mmap && self.datamap.is_some();
         //
         for l in 0..nb_layer as usize {
             // read and check magic
-- 
2.43.0


From 2a54d8c5397dc90614437337c759737db896a276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:17 +0000
Subject: [PATCH 12/24] fix: load_hnsw_description did not return the number of
 points

---
 src/libext.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libext.rs b/src/libext.rs
index 76bfd62..d19fc55 100644
--- a/src/libext.rs
+++ b/src/libext.rs
@@ -1195,6 +1195,7 @@ pub unsafe extern "C" fn load_hnsw_description(
                 ffi_description.max_nb_connection = description.max_nb_connection;
                 ffi_description.nb_layer = description.nb_layer;
                 ffi_description.ef = description.ef;
+                ffi_description.nb_point = description.nb_point;
                 ffi_description.data_dimension = description.dimension;
                 ffi_description.distname_len = distname_len;
                 ffi_description.distname = distname_ptr;
-- 
2.43.0


From 21f517cad4390c1a5075446ec84fb1fa9b13bd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:20 +0000
Subject: [PATCH 13/24] fix: return errors for truncated or inconsistent dumps

Reload panicked or exited the process instead of returning an error.
---
 src/datamap.rs |  22 +++++---
 src/hnswio.rs  | 140 +++++++++++++++++++++++++++----------------------
 2 files changed, 93 insertions(+), 69 deletions(-)

diff --git a/src/datamap.rs b/src/datamap.rs
index a7355f7..56ea7d1 100644
--- a/src/datamap.rs
+++ b/src/datamap.rs
@@ -55,12 +55,13 @@ impl DataMap {
         let graphfileres = OpenOptions::new().read(true).open(&graphpath);
         if graphfileres.is_err() {
             println!("DataMap: could not open file {:?}", graphpath.as_os_str());
-            std::process::exit(1);
+            return Err(format!("could not open file {:?}", graphpath));
         }
         let graphfile = graphfileres.unwrap();
         let mut graph_in = BufReader::new(graphfile);
         // we need to call load_description first to get distance name
-        let hnsw_description = hnswio::load_description(&mut graph_in).unwrap();
+        let hnsw_description =
+            hnswio::load_description(&mut graph_in).map_err(|e| e.to_string())?;
         if hnsw_description.format_version <= 2 {
             let msg = String::from("from_hnsw::from_hnsw : data mapping is only possible for dumps with the version > 0.1.19 of this crate");
             error!(
@@ -95,24 +96,28 @@ impl DataMap {
         let meta = std::fs::metadata(&datapath);
         if meta.is_err() {
             error!("Could not open file : {:?}", &datapath);
-            std::process::exit(1);
+            return Err(format!("could not open file : {:?}", &datapath));
         }
         let fsize: usize = meta.unwrap().len().try_into().unwrap();
         //
         let file_res = File::open(&datapath);
         if file_res.is_err() {
             error!("Could not open file : {:?}", &datapath);
-            std::process::exit(1);
+            return Err(format!("could not open file : {:?}", &datapath));
         }
         let file = file_res.unwrap();
         let offset = 0;
         //
-        let mmap_opt = MmapOptions::new(fsize).unwrap();
+        if fsize < std::mem::size_of::<u32>() + std::mem::size_of::<usize>() {
+            error!("Truncated header in file : {:?}", &datapath);
+            return Err(String::from("truncated data file"));
+        }
+        let mmap_opt = MmapOptions::new(fsize).map_err(|e| e.to_string())?;
         let mmap_opt = unsafe { mmap_opt.with_file(&file, offset) };
         let mapping_res = mmap_opt.map();
         if mapping_res.is_err() {
             error!("Could not memory map : {:?}", &datapath);
-            std::process::exit(1);
+            return Err(format!("could not memory map : {:?}", &datapath));
         }
         let mmap = mapping_res.unwrap();
         //
@@ -132,7 +137,10 @@ impl DataMap {
         );
         current_mmap_addr += std::mem::size_of::<u32>();
         let magic = u32::from_ne_bytes(u32_slice);
-        assert_eq!(magic, MAGICDATAP, "magic not equal to MAGICDATAP in mmap");
+        if magic != MAGICDATAP {
+            error!("magic not equal to MAGICDATAP in mmap");
+            return Err(String::from("bad magic in data file"));
+        }
         // get dimension
         usize_slice.copy_from_slice(
             &mapped_slice[current_mmap_addr..current_mmap_addr + std::mem::size_of::<usize>()],
diff --git a/src/hnswio.rs b/src/hnswio.rs
index 3651e12..1ef4e6c 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -413,7 +413,7 @@ impl HnswIo {
         let mut graph_in = BufReader::new(graphfile);
         let data_in = BufReader::new(datafile);
         // we need to call load_description first to get distance name
-        let hnsw_description = load_description(&mut graph_in).unwrap();
+        let hnsw_description = load_description(&mut graph_in)?;
         //
         Ok(LoadInit {
             descr: hnsw_description,
@@ -451,19 +451,20 @@ impl HnswIo {
         let mut it_slice = [0u8; std::mem::size_of::<u32>()];
         data_in.read_exact(&mut it_slice)?;
         let magic = u32::from_ne_bytes(it_slice);
-        assert_eq!(
-            magic, MAGICDATAP,
-            "magic not equal to MAGICDATAP in load_point"
-        );
+        if magic != MAGICDATAP {
+            return Err(anyhow!("bad magic at beginning of data file"));
+        }
         //
         let mut it_slice = [0u8; std::mem::size_of::<usize>()];
         data_in.read_exact(&mut it_slice)?;
         let dimension = usize::from_ne_bytes(it_slice);
-        assert_eq!(
-            dimension, description.dimension,
-            "data dimension incoherent {:?} {:?} ",
-            dimension, description.dimension
-        );
+        if dimension != description.dimension {
+            return Err(anyhow!(
+                "data dimension incoherent {:?} {:?} ",
+                dimension,
+                description.dimension
+            ));
+        }
         //
         let _mode = description.dumpmode;
         let distname = description.distname.clone();
@@ -550,19 +551,20 @@ impl HnswIo {
         let mut it_slice = [0u8; std::mem::size_of::<u32>()];
         data_in.read_exact(&mut it_slice)?;
         let magic = u32::from_ne_bytes(it_slice);
-        assert_eq!(
-            magic, MAGICDATAP,
-            "magic not equal to MAGICDATAP in load_point"
-        );
+        if magic != MAGICDATAP {
+            return Err(anyhow!("bad magic at beginning of data file"));
+        }
         //
         let mut it_slice = [0u8; std::mem::size_of::<usize>()];
         data_in.read_exact(&mut it_slice)?;
         let dimension = usize::from_ne_bytes(it_slice);
-        assert_eq!(
-            dimension, description.dimension,
-            "data dimension incoherent {:?} {:?} ",
-            dimension, description.dimension
-        );
+        if dimension != description.dimension {
+            return Err(anyhow!(
+                "data dimension incoherent {:?} {:?} ",
+                dimension,
+                description.dimension
+            ));
+        }
         //
         let _mode = description.dumpmode;
         let distname = description.distname.clone();
@@ -634,7 +636,11 @@ impl HnswIo {
                 descr.t_name,
                 std::any::type_name::<T>()
             );
-            panic!("incohrent size of T in description");
+            return Err(anyhow!(
+                "type in dump : {:?} is not the type asked for : {:?}",
+                descr.t_name,
+                std::any::type_name::<T>()
+            ));
         }
         //
         let mut points_by_layer: Vec<Vec<Arc<Point<T>>>> =
@@ -702,18 +708,19 @@ impl HnswIo {
                 let point = load_point_res.0;
                 let p_id = point.get_point_id();
                 // some checks
-                assert_eq!(l, p_id.0 as usize);
-                if r != p_id.1 as usize {
-                    debug!("Origin= {:?},  p_id = {:?}", point.get_origin_id(), p_id);
-                    debug!("Storing at l {:?}, r {:?}", l, r);
+                if l != p_id.0 as usize || r != p_id.1 as usize {
+                    error!("Origin= {:?},  p_id = {:?}", point.get_origin_id(), p_id);
+                    error!("Storing at l {:?}, r {:?}", l, r);
+                    return Err(anyhow!("point {:?} found at ({}, {})", p_id, l, r));
                 }
-                assert_eq!(r, p_id.1 as usize);
                 // store neoghbour info of this point
                 neighbourhood_map.insert(p_id, load_point_res.1);
                 vlayer.push(point);
                 nb_points_loaded += 1;
                 nb_still_to_load -= 1;
-                assert!(nb_still_to_load >= 0);
+                if nb_still_to_load < 0 {
+                    return Err(anyhow!("more points in dump than declared"));
+                }
             }
             points_by_layer.push(vlayer);
         }
@@ -723,7 +730,10 @@ impl HnswIo {
             let point = &points_by_layer[p_id.0 as usize][p_id.1 as usize];
             for (l, neighbours) in neighbours.iter().enumerate() {
                 for n in neighbours {
-                    let n_point = &points_by_layer[n.p_id.0 as usize][n.p_id.1 as usize];
+                    let n_point = points_by_layer
+                        .get(n.p_id.0 as usize)
+                        .and_then(|layer| layer.get(n.p_id.1 as usize))
+                        .ok_or_else(|| anyhow!("neighbour {:?} not in dump", n.p_id))?;
                     // now n_point is the Arc<Point> corresponding to neighbour n of point,
                     // construct a corresponding PointWithOrder
                     let n_pwo = PointWithOrder::<T>::new(n_point, n.distance);
@@ -761,7 +771,11 @@ impl HnswIo {
             "found entry point, origin_id {:?} , layer {:?}, rank in layer {:?} ",
             origin_id, layer, rank_in_l
         );
-        let entry_point = Arc::clone(&points_by_layer[layer as usize][rank_in_l as usize]);
+        let entry_point = points_by_layer
+            .get(layer as usize)
+            .and_then(|points| points.get(rank_in_l as usize))
+            .ok_or_else(|| anyhow!("entry point ({}, {}) not in dump", layer, rank_in_l))?;
+        let entry_point = Arc::clone(entry_point);
         info!(
             " loaded entry point, origin_id {:} p_id {:?}",
             entry_point.get_origin_id(),
@@ -819,15 +833,15 @@ impl HnswIo {
                 let v = load_point_data::<T>(origin_id, data_in, descr);
                 if v.is_err() {
                     error!("loading point {:?}", origin_id);
-                    std::process::exit(1);
                 }
-                Point::<T>::new(v.unwrap(), origin_id, p_id)
+                Point::<T>::new(v?, origin_id, p_id)
             }
             true => {
                 skip_point_data(origin_id, data_in, descr)?; // keep cohrence between data file and graph file!
                 debug!("constructing point from datamap, dataid : {:?}", origin_id);
                 let s: Option<&'b [T]> = self.datamap.as_ref().unwrap().get_data::<T>(&origin_id);
-                Point::<T>::new_from_mmap(s.unwrap(), origin_id, p_id)
+                let s = s.ok_or_else(|| anyhow!("no mmapped data for id {}", origin_id))?;
+                Point::<T>::new_from_mmap(s, origin_id, p_id)
             }
         };
         self.nb_point_loaded.fetch_add(1, Ordering::Relaxed);
@@ -1022,7 +1036,7 @@ pub fn load_description(io_in: &mut dyn Read) -> Result<Description> {
     }
     let mut distv = vec![0; len];
     io_in.read_exact(distv.as_mut_slice())?;
-    let distname = String::from_utf8(distv).unwrap();
+    let distname = String::from_utf8(distv)?;
     debug!("distance name {:?} ", distname);
     descr.distname = distname;
     // reload of type name
@@ -1036,7 +1050,7 @@ pub fn load_description(io_in: &mut dyn Read) -> Result<Description> {
     }
     let mut tnamev = vec![0; len];
     io_in.read_exact(tnamev.as_mut_slice())?;
-    let t_name = String::from_utf8(tnamev).unwrap();
+    let t_name = String::from_utf8(tnamev)?;
     debug!("T type name {:?} ", t_name);
     descr.t_name = t_name;
     debug!(" end of description load \n");
@@ -1135,19 +1149,20 @@ where
     let mut it_slice = [0u8; std::mem::size_of::<u32>()];
     data_in.read_exact(&mut it_slice)?;
     let magic = u32::from_ne_bytes(it_slice);
-    assert_eq!(
-        magic, MAGICDATAP,
-        "magic not equal to MAGICDATAP in load_point, point_id : {:?} ",
-        origin_id
-    );
+    if magic != MAGICDATAP {
+        return Err(anyhow!("bad magic in data, point_id : {:?} ", origin_id));
+    }
     // read origin id
     let mut it_slice = [0u8; std::mem::size_of::<u64>()];
     data_in.read_exact(&mut it_slice)?;
     let origin_id_data = u64::from_ne_bytes(it_slice) as usize;
-    assert_eq!(
-        origin_id, origin_id_data,
-        "origin_id incoherent between graph and data"
-    );
+    if origin_id != origin_id_data {
+        return Err(anyhow!(
+            "origin_id incoherent between graph {} and data {}",
+            origin_id,
+            origin_id_data
+        ));
+    }
     // now read data. we use size_t that is in description, to take care of the casewhere we reload
     let mut it_slice = [0u8; std::mem::size_of::<u64>()];
     data_in.read_exact(&mut it_slice)?;
@@ -1158,7 +1173,7 @@ where
 
     let v: Vec<T> = if std::any::TypeId::of::<T>() != std::any::TypeId::of::<NoData>() {
         match descr.format_version {
-            2 => bincode::deserialize(&v_serialized).unwrap(),
+            2 => bincode::deserialize(&v_serialized)?,
             3 | 4 => {
                 // vectors can have different lengths (Levenshtein for example), so the number of elements
                 // comes from the record and not from descr.dimension
@@ -1188,7 +1203,7 @@ where
                     "error in load_point, unknow format_version : {:?}",
                     descr.format_version
                 );
-                std::process::exit(1);
+                return Err(anyhow!("unknown format version {}", descr.format_version));
             }
         }
     } else {
@@ -1204,19 +1219,20 @@ fn skip_point_data(origin_id: usize, data_in: &mut dyn Read, _descr: &Descriptio
     let mut it_slice = [0u8; std::mem::size_of::<u32>()];
     data_in.read_exact(&mut it_slice)?;
     let magic = u32::from_ne_bytes(it_slice);
-    assert_eq!(
-        magic, MAGICDATAP,
-        "magic not equal to MAGICDATAP in load_point, point_id : {:?} ",
-        origin_id
-    );
+    if magic != MAGICDATAP {
+        return Err(anyhow!("bad magic in data, point_id : {:?} ", origin_id));
+    }
     // read origin id
     let mut it_slice = [0u8; std::mem::size_of::<u64>()];
     data_in.read_exact(&mut it_slice)?;
     let origin_id_data = u64::from_ne_bytes(it_slice) as usize;
-    assert_eq!(
-        origin_id, origin_id_data,
-        "origin_id incoherent between graph and data"
-    );
+    if origin_id != origin_id_data {
+        return Err(anyhow!(
+            "origin_id incoherent between graph {} and data {}",
+            origin_id,
+            origin_id_data
+        ));
+    }
     //
     // now read data. we use size_t that is in description, to take care of the casewhere we reload
     let mut it_slice = [0u8; std::mem::size_of::<u64>()];
@@ -1244,23 +1260,23 @@ fn load_point_graph(graph_in: &mut dyn Read, descr: &Description) -> Result<Poin
     trace!("in load_point_graph");
     // read and check magic
     let mut it_slice = [0u8; std::mem::size_of::<u32>()];
-    graph_in.read_exact(&mut it_slice).unwrap();
+    graph_in.read_exact(&mut it_slice)?;
     let magic = u32::from_ne_bytes(it_slice);
     if magic != MAGICPOINT {
         error!("got instead of MAGICPOINT {:x}", magic);
         return Err(anyhow!("bad magic at point beginning"));
     }
     let mut it_slice = [0u8; std::mem::size_of::<DataId>()];
-    graph_in.read_exact(&mut it_slice).unwrap();
+    graph_in.read_exact(&mut it_slice)?;
     let origin_id = DataId::from_ne_bytes(it_slice);
     //
     // read point_id
     let mut it_slice = [0u8; std::mem::size_of::<u8>()];
-    graph_in.read_exact(&mut it_slice).unwrap();
+    graph_in.read_exact(&mut it_slice)?;
     let layer = u8::from_ne_bytes(it_slice);
     //
     let mut it_slice = [0u8; std::mem::size_of::<i32>()];
-    graph_in.read_exact(&mut it_slice).unwrap();
+    graph_in.read_exact(&mut it_slice)?;
     let rank_in_l = i32::from_ne_bytes(it_slice);
     let p_id = PointId(layer, rank_in_l);
     debug!(
@@ -1275,24 +1291,24 @@ fn load_point_graph(graph_in: &mut dyn Read, descr: &Description) -> Result<Poin
         let mut neighbour: Neighbour = Default::default();
         // read nb_neighbour as usize!!! CAUTION, then nb_neighbours times identity(depends on Full or Light) distance : f32
         let mut it_slice = [0u8; std::mem::size_of::<usize>()];
-        graph_in.read_exact(&mut it_slice).unwrap();
+        graph_in.read_exact(&mut it_slice)?;
         let nb_neighbours = usize::from_ne_bytes(it_slice);
         let mut neighborhood_l: Vec<Neighbour> = Vec::with_capacity(nb_neighbours);
         for _j in 0..nb_neighbours {
             let mut it_slice = [0u8; std::mem::size_of::<DataId>()];
-            graph_in.read_exact(&mut it_slice).unwrap();
+            graph_in.read_exact(&mut it_slice)?;
             neighbour.d_id = DataId::from_ne_bytes(it_slice);
             if descr.dumpmode == 1 {
                 let mut it_slice = [0u8; std::mem::size_of::<u8>()];
-                graph_in.read_exact(&mut it_slice).unwrap();
+                graph_in.read_exact(&mut it_slice)?;
                 neighbour.p_id.0 = u8::from_ne_bytes(it_slice);
                 //
                 let mut it_slice = [0u8; std::mem::size_of::<i32>()];
-                graph_in.read_exact(&mut it_slice).unwrap();
+                graph_in.read_exact(&mut it_slice)?;
                 neighbour.p_id.1 = i32::from_ne_bytes(it_slice);
             }
             let mut it_slice = [0u8; std::mem::size_of::<f32>()];
-            graph_in.read_exact(&mut it_slice).unwrap();
+            graph_in.read_exact(&mut it_slice)?;
             neighbour.distance = f32::from_ne_bytes(it_slice);
             //  debug!("        voisins  load {:?} {:?} {:?} ", neighbour.p_id, neighbour.d_id , neighbour.distance);
             // now we have a new neighbour, we must really fill neighbourhood info, so it means going from Neighbour to PointWithOrder
-- 
2.43.0


From 6b4d49404f87965707a224149bd6204e12ad6c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:34 +0000
Subject: [PATCH 14/24] fix: division by zero in DataMap::get_data for a zero
 sized type

---
 src/datamap.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/datamap.rs b/src/datamap.rs
index 56ea7d1..1c45218 100644
--- a/src/datamap.rs
+++ b/src/datamap.rs
@@ -296,7 +296,10 @@ impl DataMap {
             None => mapped_slice[current_mmap_addr..].as_ptr() as *const T,
         };
         let slice_t = unsafe {
-            std::slice::from_raw_parts(data_ptr, serialized_len / std::mem::size_of::<T>())
+            std::slice::from_raw_parts(
+                data_ptr,
+                serialized_len / std::mem::size_of::<T>().max(1),
+            )
         };
         Some(slice_t)
     }
-- 
2.43.0


From 128261fec0dd357e1fec9eb765a2943adf795f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:49 +0000
Subject: [PATCH 15/24] hooks for external checks, compiled only with --cfg
 hnsw_vhook

---
 src/hnsw.rs  | 40 ++++++++++++++++++++++++++++++++++++--
 src/lib.rs   |  4 ++++
 src/vhook.rs | 55 ++++++++++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 97 insertions(+), 2 deletions(-)
 create mode 100644 src/vhook.rs

diff --git a/src/hnsw.rs b/src/hnsw.rs
index a272b58..b6da375 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -323,10 +323,18 @@ pub struct LayerGenerator {
 }
 
 impl LayerGenerator {
+    fn new_rng() -> StdRng {
+        #[cfg(hnsw_vhook)]
+        if let Some(seed) = crate::vhook::seed() {
+            return StdRng::seed_from_u64(seed);
+        }
+        StdRng::from_entropy()
+    }
+
     pub fn new(max_nb_connection: usize, maxlevel: usize) -> Self {
         let scale = 1. / (max_nb_connection as f64).ln();
         LayerGenerator {
-            rng: Arc::new(Mutex::new(StdRng::from_entropy())),
+            rng: Arc::new(Mutex::new(Self::new_rng())),
             unif: Uniform::<f64>::new(0., 1.),
             scale,
             maxlevel,
@@ -336,7 +344,7 @@ impl LayerGenerator {
     // new when we know the (absolute) scale used, as returned by get_level_scale.
     pub(crate) fn new_with_scale(scale: f64, maxlevel: usize) -> Self {
         LayerGenerator {
-            rng: Arc::new(Mutex::new(StdRng::from_entropy())),
+            rng: Arc::new(Mutex::new(Self::new_rng())),
             unif: Uniform::<f64>::new(0., 1.),
             scale,
             maxlevel,
@@ -494,6 +502,8 @@ impl<'b, T: Clone + Send + Sync> PointIndexation<'b, T> {
     fn generate_new_point(&self, data: &[T], origin_id: usize) -> (Arc<Point<'b, T>>, usize) {
         // get a write lock at the beginning of the function
         let level = self.layer_g.generate();
+        #[cfg(hnsw_vhook)]
+        let level = crate::vhook::level(level, self.max_layer);
         let new_point;
         {
             // open a write lock on points_by_layer
@@ -507,6 +517,8 @@ impl<'b, T: Clone + Send + Sync> PointIndexation<'b, T> {
             points_by_layer_ref[p_id.0 as usize].push(Arc::clone(&new_point));
         } // close write lock on points_by_layer
           //
+        #[cfg(hnsw_vhook)]
+        crate::vhook::point(1);
         let nb_point;
         {
             let mut lock_nb_point = self.nb_point.write();
@@ -646,6 +658,8 @@ impl<'b, T: Clone + Send + Sync> Iterator for IterPoint<'_, 'b, T> {
             self.layer = 0;
             self.slot_in_layer = 0;
         }
+        #[cfg(hnsw_vhook)]
+        crate::vhook::point(13);
         // All accesses go through pi_guard. Asking again for a read lock on points_by_layer would deadlock
         // if an insertion is waiting for the write lock.
         while (self.layer as usize) < self.pi_guard.len() {
@@ -958,6 +972,8 @@ impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
                     return return_points;
                 }
             }
+            #[cfg(hnsw_vhook)]
+            crate::vhook::point(12);
             // now we scan neighborhood of c in layer and increment visited_point, candidate_points
             // and optimize candidate_points so that it contains points with lowest distances to point arg
             //
@@ -1040,6 +1056,8 @@ impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
         let (new_point, _point_rank) = self
             .layer_indexed_points
             .generate_new_point(data, origin_id);
+        #[cfg(hnsw_vhook)]
+        crate::vhook::point(2);
         trace!("Hnsw insert generated new point {:?} ", new_point.p_id);
         // now real work begins
         // allocate a binary heap
@@ -1054,6 +1072,8 @@ impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
                 max_level_observed = arc_point.p_id.0;
             }
         }
+        #[cfg(hnsw_vhook)]
+        crate::vhook::point(3);
         if enter_point_copy.is_none() {
             // No entry point yet. Another thread can be inserting its first point too, so we must check again
             // under a write lock : only one point can become the first entry point without being linked to others.
@@ -1078,6 +1098,8 @@ impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
             .eval(data, enter_point_copy.as_ref().unwrap().data.get_v());
         // we go from self.max_level_observed to level+1 included
         for l in ((level + 1)..(max_level_observed + 1)).rev() {
+            #[cfg(hnsw_vhook)]
+            crate::vhook::point(4);
             // CAVEAT could bypass when layer empty, avoid  allocation..
             let mut sorted_points = self.search_layer(
                 data,
@@ -1159,6 +1181,8 @@ impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
                 );
                 // sort neighbours
                 neighbours.sort_unstable();
+                #[cfg(hnsw_vhook)]
+                crate::vhook::point(5);
                 // we must add bidirecti*onal from data i.e new_point_id to neighbours
                 new_point.neighbours.write()[l as usize].clone_from(&neighbours);
                 // this reverse neighbour update could be done here but we put it at end to gather all code
@@ -1173,7 +1197,11 @@ impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
           // new_point has been inserted at the beginning in table
           // so that we can call reverse_update_neighborhoodwe consitently
           // now reverse update of neighbours.
+        #[cfg(hnsw_vhook)]
+        crate::vhook::point(6);
         self.reverse_update_neighborhood_simple(Arc::clone(&new_point));
+        #[cfg(hnsw_vhook)]
+        crate::vhook::point(8);
         //
         self.layer_indexed_points.check_entry_point(&new_point);
         //
@@ -1214,6 +1242,8 @@ impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
             let new_point_neighbours = new_point.neighbours.read()[l as usize].clone();
             for q in &new_point_neighbours {
                 if new_point.p_id != q.point_ref.p_id {
+                    #[cfg(hnsw_vhook)]
+                    crate::vhook::point(7);
                     // as new point is in global table, do not loop and deadlock!!
                     let q_point = &q.point_ref;
                     let mut q_point_neighbours = q_point.neighbours.write();
@@ -1473,8 +1503,12 @@ impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
         let mut pivot = Arc::clone(&entry_point);
         let mut new_pivot = None;
 
+        #[cfg(hnsw_vhook)]
+        crate::vhook::point(9);
         //
         for layer in (1..=entry_point.p_id.0).rev() {
+            #[cfg(hnsw_vhook)]
+            crate::vhook::point(10);
             let mut has_changed = false;
             // search in stored neighbours
             {
@@ -1504,6 +1538,8 @@ impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
             }
             l = l + 1;
         };
+        #[cfg(hnsw_vhook)]
+        crate::vhook::point(11);
         // now search with asked ef in lower layer
         let neighbours_heap = self.search_layer(data, pivot, ef, layer_to_search, filter);
         // go from heap of points with negative dist to a sorted vec of increasing points with > 0 distances.
diff --git a/src/lib.rs b/src/lib.rs
index c4b1f28..1520f8e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,6 @@
 #![cfg_attr(feature = "stdsimd", feature(portable_simd))]
+// hnsw_vhook, see vhook.rs
+#![allow(unexpected_cfgs)]
 //
 // for logging (debug mostly, switched at compile time in cargo.toml)
 use env_logger::Builder;
@@ -13,6 +15,8 @@ pub mod hnsw;
 pub mod hnswio;
 pub mod libext;
 pub mod prelude;
+#[cfg(hnsw_vhook)]
+pub mod vhook;
 
 // we impose our version of anndists
 pub use anndists;
diff --git a/src/vhook.rs b/src/vhook.rs
new file mode 100644
index 0000000..2b1e710
--- /dev/null
+++ b/src/vhook.rs
@@ -0,0 +1,55 @@
+//! Hooks for external checks, compiled only with `--cfg hnsw_vhook`. Nothing of this exists in a normal build.
+//!
+//! - delay points between the critical sections of concurrent operations,
+//! - choice of the level of an inserted point,
+//! - seed of the generator of levels.
+
+use std::sync::atomic::{AtomicPtr, Ordering};
+use std::sync::RwLock;
+
+/// called with a site number
+pub type PointFn = fn(u32);
+/// receives the level drawn and the exclusive bound on levels, returns the level to use
+pub type LevelFn = fn(usize, usize) -> usize;
+/// returns the seed for a new level generator, None for default behaviour.
+pub type SeedFn = fn() -> Option<u64>;
+
+// relaxed accesses only, the hook must not order the threads it observes
+static POINT_FN: AtomicPtr<()> = AtomicPtr::new(std::ptr::null_mut());
+static LEVEL_FN: RwLock<Option<LevelFn>> = RwLock::new(None);
+static SEED_FN: RwLock<Option<SeedFn>> = RwLock::new(None);
+
+pub fn set_point_fn(f: Option<PointFn>) {
+    let p = f.map_or(std::ptr::null_mut(), |f| f as *mut ());
+    POINT_FN.store(p, Ordering::Relaxed);
+}
+
+pub fn set_level_fn(f: Option<LevelFn>) {
+    *LEVEL_FN.write().unwrap() = f;
+}
+
+pub fn set_seed_fn(f: Option<SeedFn>) {
+    *SEED_FN.write().unwrap() = f;
+}
+
+pub(crate) fn point(site: u32) {
+    let p = POINT_FN.load(Ordering::Relaxed);
+    if !p.is_null() {
+        // the only non null values stored are PointFn
+        let f: PointFn = unsafe { std::mem::transmute(p) };
+        f(site)
+    }
+}
+
+pub(crate) fn level(drawn: usize, bound: usize) -> usize {
+    let f = *LEVEL_FN.read().unwrap();
+    match f {
+        Some(f) => f(drawn, bound),
+        None => drawn,
+    }
+}
+
+pub(crate) fn seed() -> Option<u64> {
+    let f = *SEED_FN.read().unwrap();
+    f.and_then(|f| f())
+}
-- 
2.43.0


From 47f2c223481aed45e1feabf7d71f41de650765c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:23 +0000
Subject: [PATCH 16/24] fix: DataMap::check_data_type accepted any type of the
 same crate

---
 src/datamap.rs | 22 ++++------------------
 1 file changed, 4 insertions(+), 18 deletions(-)

diff --git a/src/datamap.rs b/src/datamap.rs
index 1c45218..5bfbf10 100644
--- a/src/datamap.rs
+++ b/src/datamap.rs
@@ -243,29 +243,15 @@ impl DataMap {
     where
         T: 'static + Sized,
     {
-        // we check last part of name of type
-        let tname_vec = self.t_name.rsplit_terminator("::").collect::<Vec<&str>>();
-
-        if tname_vec.last().is_none() {
-            let errmsg = "DataMap::check_data_type() cannot determine data type name ";
-            error!("DataMap::check_data_type() cannot determine data type name ");
-            std::panic!("DataMap::check_data_type(), {}", errmsg);
-        }
-        let tname_last = tname_vec.last().unwrap();
-        //
-        let datat_name_arg = std::any::type_name::<T>().to_string();
-        let datat_name_vec = datat_name_arg
-            .rsplit_terminator("::")
-            .collect::<Vec<&str>>();
-
-        let datat_name_arg_last = datat_name_vec.last().unwrap();
+        // the same test as in from_hnswdump: last parts of names do not distinguish generic types
+        let datat_name_arg = std::any::type_name::<T>();
         //
-        if datat_name_arg_last == tname_last {
+        if datat_name_arg == self.t_name {
             true
         } else {
             info!(
                 "Data type in DataMap : {},  type arg = {}",
-                tname_last, datat_name_arg_last
+                self.t_name, datat_name_arg
             );
             false
         }
-- 
2.43.0


From 50b1178726ccaff10cb727cd8d07af22404482ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:27 +0000
Subject: [PATCH 17/24] fix: file_dump panicked when files could not be opened

---
 src/api.rs    |  2 +-
 src/hnswio.rs | 17 +++++++++++------
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/api.rs b/src/api.rs
index 5d75fbc..dacbe11 100644
--- a/src/api.rs
+++ b/src/api.rs
@@ -71,7 +71,7 @@ where
         //
         // do not overwrite if mmap is active
         let overwrite = !self.get_datamap_opt();
-        let mut dumpinit = DumpInit::new(path, file_basename, overwrite);
+        let mut dumpinit = DumpInit::try_new(path, file_basename, overwrite)?;
         let dumpname = dumpinit.get_basename().clone();
         //
         let res = self.dump(DumpMode::Full, &mut dumpinit);
diff --git a/src/hnswio.rs b/src/hnswio.rs
index 1ef4e6c..6026e5a 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -151,6 +151,13 @@ pub struct DumpInit {
 impl DumpInit {
     // This structure will check existence of dumps of same name and generate a unique filename if necessary according to overwrite flag
     pub fn new(dir: &Path, basename_default: &str, overwrite: bool) -> Self {
+        Self::try_new(dir, basename_default, overwrite).unwrap_or_else(|_| {
+            std::panic::panic_any("HnswIo::init : could not open file".to_string())
+        })
+    }
+
+    // as new, but returns an error if files cannot be opened
+    pub(crate) fn try_new(dir: &Path, basename_default: &str, overwrite: bool) -> Result<Self> {
         // if we cannot overwrite data files (in case of mmap in particular)
         // we will ensure we have a unique basename
         let basename = match overwrite {
@@ -203,9 +210,8 @@ impl DumpInit {
                 "HnswIo::reload_hnsw : could not open file {:?}",
                 graphpath.as_os_str()
             );
-            std::panic::panic_any("HnswIo::init : could not open file".to_string());
         }
-        let graphfile = graphfileres.unwrap();
+        let graphfile = graphfileres?;
         //  same thing for data file
         let mut dataname = basename.clone();
         dataname.push_str(".hnsw.data");
@@ -221,18 +227,17 @@ impl DumpInit {
                 "HnswIo::init : could not open file {:?}",
                 datapath.as_os_str()
             );
-            std::panic::panic_any("HnswIo::init : could not open file".to_string());
         }
-        let datafile = datafileres.unwrap();
+        let datafile = datafileres?;
         //
         let graph_out = BufWriter::new(graphfile);
         let data_out = BufWriter::new(datafile);
         //
-        DumpInit {
+        Ok(DumpInit {
             basename,
             data_out,
             graph_out,
-        }
+        })
     }
 
     /// returns the basename used for the dump. May be it has been made unique to void overwriting a previous or mmapped dump
-- 
2.43.0


From 7e06df6708a2d44f2affd8e54f77ade235d54838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:03 +0000
Subject: [PATCH 18/24] fix: a new point must be reachable in layer 0 before it
 is in upper layers

---
 src/hnsw.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index b6da375..cdcbf63 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -1236,7 +1236,9 @@ impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
             new_point.p_id
         );
         let level = new_point.p_id.0;
-        for l in (0..level + 1).rev() {
+        // layer 0 first : as soon as new_point can be reached in a layer it must also be reachable in lower layers.
+        // Otherwise a point inserted by another thread and linked only to new_point could not be found.
+        for l in 0..level + 1 {
             // we must not hold the lock on new_point neighbours while asking for a write lock on the neighbours of q :
             // another thread updating in the other direction would deadlock with us.
             let new_point_neighbours = new_point.neighbours.read()[l as usize].clone();
-- 
2.43.0


From b8fb260305825239b6f2e6224bb3d8e999504caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:00 +0000
Subject: [PATCH 19/24] fix: memory reserved at creation did not follow the
 expected number of points by layer

---
 src/hnsw.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index cdcbf63..2d612c8 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -454,7 +454,7 @@ impl<'b, T: Clone + Send + Sync> PointIndexation<'b, T> {
             // recall that range are right extremeity excluded
             // compute fraction of points going into layer i and do expected memory reservation
             let s = 1. / (max_nb_connection as f64).ln();
-            let frac = (-(i as f64) / s).exp() - (-((i + 1) as f64) / s);
+            let frac = (-(i as f64) / s).exp() - (-((i + 1) as f64) / s).exp();
             let expected_size = ((frac * max_elements as f64).round()) as usize;
             points_by_layer.push(Vec::with_capacity(expected_size));
         }
-- 
2.43.0


From eb70aee1610f326499636b74b2ddfbf046be92c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:00 +0000
Subject: [PATCH 20/24] fix: a search with a huge k or ef panicked or aborted
 when reserving memory

---
 src/hnsw.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index 2d612c8..93a7efc 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -923,7 +923,8 @@ impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
         //
         // here we allocate a binary_heap on values not on reference beccause we want to return
         // log2(skiplist_size) must be greater than 1.
-        let skiplist_size = ef.max(2);
+        // no more points than those stored can be returned, whatever ef.
+        let skiplist_size = ef.min(self.get_nb_point()).max(2);
         // we will store positive distances in this one
         let mut return_points = BinaryHeap::<Arc<PointWithOrder<T>>>::with_capacity(skiplist_size);
         //
-- 
2.43.0


From 0a4be7751075362d01418ca0eff77c9b9eca6850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:00 +0000
Subject: [PATCH 21/24] fix: a dump with names too long to be reloaded
 succeeded

---
 src/hnswio.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hnswio.rs b/src/hnswio.rs
index 6026e5a..83907f9 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -899,6 +899,10 @@ impl Description {
     ///
     fn dump<W: Write>(&self, argmode: DumpMode, out: &mut BufWriter<W>) -> Result<i32> {
         info!("in dump of description");
+        // load_description refuses longer names, so a dump with such names could not be reloaded
+        if self.distname.len() > 256 || self.t_name.len() > 256 {
+            return Err(anyhow!("names of distance and type should not exceed 256"));
+        }
         out.write_all(&MAGICDESCR_4.to_ne_bytes())?;
         let mode: u8 = match argmode {
             DumpMode::Full => 1,
-- 
2.43.0


From 0e7e6c38d4268a177f2ad546f19a30ba1762783d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:46 +0000
Subject: [PATCH 22/24] fix: a dump of elements owning memory contained
 pointers and its reload freed them twice

Vectors of such elements (String, Vec ...) are now dumped with bincode, so they are not mappable.
---
 src/datamap.rs |  5 +++++
 src/hnswio.rs  | 19 ++++++++++++++-----
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/datamap.rs b/src/datamap.rs
index 5bfbf10..40c0076 100644
--- a/src/datamap.rs
+++ b/src/datamap.rs
@@ -81,6 +81,11 @@ impl DataMap {
             );
             return Err(String::from("type error"));
         }
+        // a type that owns memory is not dumped as it is in memory
+        if std::mem::needs_drop::<T>() {
+            error!("Data mapping is not possible for type {:?}", t_name);
+            return Err(String::from("data mapping is not possible for this type"));
+        }
         // get dimension as declared in description
         let descr_dimension = hnsw_description.get_dimension();
         drop(graph_in);
diff --git a/src/hnswio.rs b/src/hnswio.rs
index 83907f9..eff9d16 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -1126,11 +1126,18 @@ fn dump_point<T: Serialize + Clone + Sized + Send + Sync, W: Write>(
     let origin_u64 = point.get_origin_id() as u64;
     dataout.write_all(&origin_u64.to_ne_bytes())?;
     //
-    let serialized = unsafe {
-        std::slice::from_raw_parts(
-            point.get_v().as_ptr() as *const u8,
-            std::mem::size_of_val(point.get_v()),
-        )
+    let encoded: Vec<u8>;
+    let serialized = if std::mem::needs_drop::<T>() {
+        // T owns memory, its bytes are only pointers
+        encoded = bincode::serialize(point.get_v())?;
+        encoded.as_slice()
+    } else {
+        unsafe {
+            std::slice::from_raw_parts(
+                point.get_v().as_ptr() as *const u8,
+                std::mem::size_of_val(point.get_v()),
+            )
+        }
     };
     trace!("serializing len {:?}", serialized.len());
     let len_64 = serialized.len() as u64;
@@ -1183,6 +1190,8 @@ where
     let v: Vec<T> = if std::any::TypeId::of::<T>() != std::any::TypeId::of::<NoData>() {
         match descr.format_version {
             2 => bincode::deserialize(&v_serialized)?,
+            // see dump_point
+            _ if std::mem::needs_drop::<T>() => bincode::deserialize(&v_serialized)?,
             3 | 4 => {
                 // vectors can have different lengths (Levenshtein for example), so the number of elements
                 // comes from the record and not from descr.dimension
-- 
2.43.0


From 0e24a792c55ce710f1752b092c2c11e37246d04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:57 +0000
Subject: [PATCH 23/24] fix: DataMap::get_data made slices of any type asked
 for

---
 src/datamap.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/datamap.rs b/src/datamap.rs
index 40c0076..f63220b 100644
--- a/src/datamap.rs
+++ b/src/datamap.rs
@@ -265,12 +265,19 @@ impl DataMap {
     //
 
     /// return the data corresponding to dataid. Access is done using mmap.  
-    /// Function returns None if address is invalid
-    /// This function requires you know the type T.  
-    /// **As mmap loading calls an unsafe function it is recommended to check the type name with  [Self::check_data_type()]**
+    /// Function returns None if address is invalid, or if T is not the type of the data
+    /// (see [Self::check_data_type()])
     pub fn get_data<'a, T: Clone + std::fmt::Debug>(&'a self, dataid: &DataId) -> Option<&'a [T]> {
         //
         trace!("In DataMap::get_data, dataid : {:?}", dataid);
+        if std::any::type_name::<T>() != self.t_name {
+            error!(
+                "Data type in DataMap : {},  type arg = {}",
+                self.t_name,
+                std::any::type_name::<T>()
+            );
+            return None;
+        }
         let address = self.hmap.get(dataid)?;
         debug!("Address for id : {}, address : {:?}", dataid, address);
         let mut current_mmap_addr = *address;
-- 
2.43.0


From bc9e9d3fe3a5be01c24b3f2413563b64ff89ad33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:09 +0000
Subject: [PATCH 24/24] fix: points of a refused reload are freed

Points were linked to each other before the neighbours and the entry point were all known to be in the dump.
When the reload then failed they kept each other alive. Check references and entry point first.
---
 src/hnswio.rs | 58 ++++++++++++++++++++++++++++-----------------------
 1 file changed, 32 insertions(+), 26 deletions(-)

diff --git a/src/hnswio.rs b/src/hnswio.rs
index eff9d16..1bb7701 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -729,32 +729,17 @@ impl HnswIo {
             }
             points_by_layer.push(vlayer);
         }
-        // at this step all points are loaded , but without their neighbours fileds are not yet initialized
-        let mut nbp: usize = 0;
-        for (p_id, neighbours) in &neighbourhood_map {
-            let point = &points_by_layer[p_id.0 as usize][p_id.1 as usize];
-            for (l, neighbours) in neighbours.iter().enumerate() {
-                for n in neighbours {
-                    let n_point = points_by_layer
-                        .get(n.p_id.0 as usize)
-                        .and_then(|layer| layer.get(n.p_id.1 as usize))
-                        .ok_or_else(|| anyhow!("neighbour {:?} not in dump", n.p_id))?;
-                    // now n_point is the Arc<Point> corresponding to neighbour n of point,
-                    // construct a corresponding PointWithOrder
-                    let n_pwo = PointWithOrder::<T>::new(n_point, n.distance);
-                    point.neighbours.write()[l].push(Arc::new(n_pwo));
-                } // end of for n
-                  //  must sort
-                point.neighbours.write()[l].sort_unstable();
-            } // end of for l
-            nbp += 1;
-            if nbp % 500_000 == 0 {
-                debug!("reloading nb_points neighbourhood completed : {}", nbp);
-            }
-        } // end loop in neighbourhood_map
-          //
-          // get id of entry_point
-          // load entry point
+        // check neighbours before linking points. Once linked, points reference each other and would not be freed
+        // if we returned an error without going through the drop of PointIndexation
+        for n in neighbourhood_map.values().flatten().flatten() {
+            points_by_layer
+                .get(n.p_id.0 as usize)
+                .and_then(|layer| layer.get(n.p_id.1 as usize))
+                .ok_or_else(|| anyhow!("neighbour {:?} not in dump", n.p_id))?;
+        }
+        //
+        // get id of entry_point
+        // load entry point
         info!(
             "end of layer loading, allocating PointIndexation, nb points loaded {:?}",
             nb_points_loaded
@@ -787,6 +772,27 @@ impl HnswIo {
             entry_point.get_point_id()
         );
         //
+        // at this step all points are loaded , but without their neighbours fileds are not yet initialized
+        let mut nbp: usize = 0;
+        for (p_id, neighbours) in &neighbourhood_map {
+            let point = &points_by_layer[p_id.0 as usize][p_id.1 as usize];
+            for (l, neighbours) in neighbours.iter().enumerate() {
+                for n in neighbours {
+                    let n_point = &points_by_layer[n.p_id.0 as usize][n.p_id.1 as usize];
+                    // now n_point is the Arc<Point> corresponding to neighbour n of point,
+                    // construct a corresponding PointWithOrder
+                    let n_pwo = PointWithOrder::<T>::new(n_point, n.distance);
+                    point.neighbours.write()[l].push(Arc::new(n_pwo));
+                } // end of for n
+                  //  must sort
+                point.neighbours.write()[l].sort_unstable();
+            } // end of for l
+            nbp += 1;
+            if nbp % 500_000 == 0 {
+                debug!("reloading nb_points neighbourhood completed : {}", nbp);
+            }
+        } // end loop in neighbourhood_map
+        //
         let point_indexation = PointIndexation {
             max_nb_connection: descr.max_nb_connection as usize,
             max_layer: NB_LAYER_MAX as usize,
-- 
2.43.0

