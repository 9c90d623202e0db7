From 0e6a4484b7ddea98cfa621b47e79e70f77cdee52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:31 +0000
Subject: [PATCH 01/11] fix: queries no longer panic on a tree whose root is a
 leaf

---
 src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index cfe4ef2..4cbe795 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -110,10 +110,12 @@ impl<T: Float, const D: usize> Node<T, D> {
         }
     }
 
+    /// Returns some point of this node: the splitting point of a stem, or the first point of a
+    /// leaf. Used on the root, which is a (nonempty) leaf when the data fits in a single leaf.
     fn stem<'a>(&'a self) -> &'a Point<T, D> {
         match self {
             Node::Stem { point, .. } => point,
-            _ => unreachable!("only to be used on stems"),
+            Node::Leaf { points, .. } => &points[0],
         }
     }
 
-- 
2.43.0


From 0f92d6953d870d185022fab8c353e7f0c1115a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:31 +0000
Subject: [PATCH 02/11] fix: size_of_tree no longer underflows for a leafsize
 of zero

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4cbe795..621f7ee 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -822,8 +822,8 @@ mod tests {
 
 fn size_of_tree(datalen: usize, leafsize: usize) -> usize {
     if likely(datalen > leafsize) {
-        let left = datalen / 2 - 1;
-        let right = datalen / 2 - datalen % 2;
+        let left = (datalen / 2).saturating_sub(1);
+        let right = (datalen / 2).saturating_sub(datalen % 2);
         1 + size_of_tree(left, leafsize) + size_of_tree(right, leafsize)
     } else if datalen == 0 {
         0
-- 
2.43.0


From dbfb903876a11a8b76cea97d97a80807f5db6acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:03 +0000
Subject: [PATCH 03/11] fix: data is checked before the tree is built from it

---
 src/lib.rs | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 621f7ee..83910e9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -147,9 +147,9 @@ impl<'t, T: Float + Send + Debug, const D: usize> Tree<'t, T, D> {
         if input.len() == 0 {
             return Err(FnntwError::ZeroLengthInputData);
         }
-        // Perform checks for valid data
-        std::thread::scope(|s| {
-            let handle = s.spawn(|| check_data(input));
+        {
+            // Perform checks for valid data, before the build relies on them
+            check_data(input)?;
 
             // This is used to determine the size several allocations
             let data_len = input.len();
@@ -248,9 +248,6 @@ impl<'t, T: Float + Send + Debug, const D: usize> Tree<'t, T, D> {
             };
             let root_node = unsafe { nodes.pop().unwrap_unchecked() };
 
-            // Ensure we've checked data before returning
-            unsafe { handle.join().unwrap_unchecked()? };
-
             let start = input.as_ptr() as *const [NotNan<T>; D];
 
             Ok(Tree {
@@ -263,7 +260,7 @@ impl<'t, T: Float + Send + Debug, const D: usize> Tree<'t, T, D> {
                 root_node,
                 boxsize: None,
             })
-        })
+        }
     }
 
     // A recursive private function.
@@ -464,13 +461,13 @@ impl<'t, T: Float + Send + Debug, const D: usize> Tree<'t, T, D> {
 
     /// Create a new FNSTW kdTree [Tree] using a nonparallel build.
     pub fn new(input: &'t [[T; D]], leafsize: usize) -> FnntwResult<Tree<'t, T, D>, T> {
-        // Perform checks for valid data
+        // Nonzero Length
         if input.len() == 0 {
             return Err(FnntwError::ZeroLengthInputData);
         }
-        std::thread::scope(|s| {
-            // SAFETY: the thread is joined within this
-            let handle = s.spawn(|| check_data(input));
+        {
+            // Perform checks for valid data, before the build relies on them
+            check_data(input)?;
 
             // This is used to determine the size several allocations
             let data_len = input.len();
@@ -560,9 +557,6 @@ impl<'t, T: Float + Send + Debug, const D: usize> Tree<'t, T, D> {
 
             let root_node: Node<T, D> = nodes.pop().expect("root node should exist");
 
-            // ensure we've checked data before returning
-            handle.join().unwrap()?;
-
             let start = input.as_ptr() as *const [NotNan<T>; D];
 
             Ok(Tree {
@@ -575,7 +569,7 @@ impl<'t, T: Float + Send + Debug, const D: usize> Tree<'t, T, D> {
                 root_node,
                 boxsize: None,
             })
-        })
+        }
     }
 
     // A recursive private function.
-- 
2.43.0


From 99ae001e0aaf79296932eb5d31d3f24abaff4c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:03 +0000
Subject: [PATCH 04/11] fix: parallel k-queries return min(k, n) neighbors when
 k exceeds n

---
 src/query_k/parallel.rs      | 3 +++
 src/query_k/parallel_axis.rs | 3 +++
 src/query_k/parallel_with.rs | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/query_k/parallel.rs b/src/query_k/parallel.rs
index 25bb3e5..5d5c03d 100644
--- a/src/query_k/parallel.rs
+++ b/src/query_k/parallel.rs
@@ -22,6 +22,9 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
         #[cfg(feature = "timing")]
         let alloc_timer = std::time::Instant::now();
 
+        // There are at most this many neighbors
+        let k = k.min(self.data.len());
+
         let mut distances = Vec::with_capacity(queries.len() * k);
         let mut indices = Vec::with_capacity(queries.len() * k);
         let dist_ptr_usize = distances.as_mut_ptr() as usize;
diff --git a/src/query_k/parallel_axis.rs b/src/query_k/parallel_axis.rs
index 781ff13..515fc16 100644
--- a/src/query_k/parallel_axis.rs
+++ b/src/query_k/parallel_axis.rs
@@ -26,6 +26,9 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
             return Err(FnntwError::InvalidAxis);
         }
 
+        // There are at most this many neighbors
+        let k = k.min(self.data.len());
+
         let mut axes = Vec::with_capacity(queries.len() * k);
         let mut nonaxes = Vec::with_capacity(queries.len() * k);
         #[cfg(not(feature = "no-index"))]
diff --git a/src/query_k/parallel_with.rs b/src/query_k/parallel_with.rs
index 4822629..5e0ab0c 100644
--- a/src/query_k/parallel_with.rs
+++ b/src/query_k/parallel_with.rs
@@ -23,6 +23,9 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
         #[cfg(feature = "timing")]
         let alloc_timer = std::time::Instant::now();
 
+        // There are at most this many neighbors
+        let k = k.min(self.data.len());
+
         let mut distances = Vec::with_capacity(queries.len() * k);
         let mut indices = Vec::with_capacity(queries.len() * k);
         let dist_ptr_usize = distances.as_mut_ptr() as usize;
-- 
2.43.0


From 55216b79d1f2d1b48a9937011920568acaf9c248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:03 +0000
Subject: [PATCH 05/11] fix: k-queries return no neighbors for k = 0

---
 src/query_k.rs               | 5 +++++
 src/query_k/parallel.rs      | 8 +++++++-
 src/query_k/parallel_axis.rs | 8 +++++++-
 src/query_k/parallel_with.rs | 8 +++++++-
 4 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/query_k.rs b/src/query_k.rs
index ea50d65..8e258c0 100644
--- a/src/query_k.rs
+++ b/src/query_k.rs
@@ -25,6 +25,11 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
         // Check for valid query point
         let query: &[NotNan<T>; D] = check_point_return(query)?;
 
+        // There are no neighbors to look for
+        if k == 0 {
+            return Ok(Default::default());
+        }
+
         if let Some(ref boxsize) = self.boxsize {
             // Periodic query
             Ok(self.query_nearest_k_periodic(query, k, boxsize))
diff --git a/src/query_k/parallel.rs b/src/query_k/parallel.rs
index 5d5c03d..6914852 100644
--- a/src/query_k/parallel.rs
+++ b/src/query_k/parallel.rs
@@ -4,7 +4,7 @@ use std::fmt::Debug;
 
 use crate::{
     point::{Float, Point},
-    utils::{check_point_return, FnntwResult, QueryKResult},
+    utils::{check_data, check_point_return, FnntwResult, QueryKResult},
     Node, Tree,
 };
 use ordered_float::NotNan;
@@ -22,6 +22,12 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
         #[cfg(feature = "timing")]
         let alloc_timer = std::time::Instant::now();
 
+        // There are no neighbors to look for
+        if k == 0 {
+            check_data(queries)?;
+            return Ok(Default::default());
+        }
+
         // There are at most this many neighbors
         let k = k.min(self.data.len());
 
diff --git a/src/query_k/parallel_axis.rs b/src/query_k/parallel_axis.rs
index 515fc16..cdad02b 100644
--- a/src/query_k/parallel_axis.rs
+++ b/src/query_k/parallel_axis.rs
@@ -5,7 +5,7 @@ use std::fmt::Debug;
 use crate::{
     distance::{calc_dist_sq_to_space, new_best_kth_axis},
     point::{Float, Point},
-    utils::{check_point_return, FnntwError, FnntwResult},
+    utils::{check_data, check_point_return, FnntwError, FnntwResult},
     Node, Tree,
 };
 use ordered_float::NotNan;
@@ -26,6 +26,12 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
             return Err(FnntwError::InvalidAxis);
         }
 
+        // There are no neighbors to look for
+        if k == 0 {
+            check_data(queries)?;
+            return Ok(Default::default());
+        }
+
         // There are at most this many neighbors
         let k = k.min(self.data.len());
 
diff --git a/src/query_k/parallel_with.rs b/src/query_k/parallel_with.rs
index 5e0ab0c..580baae 100644
--- a/src/query_k/parallel_with.rs
+++ b/src/query_k/parallel_with.rs
@@ -4,7 +4,7 @@ use std::fmt::Debug;
 
 use crate::{
     point::{Float, Point},
-    utils::{check_point_return, FnntwResult, QueryKResult},
+    utils::{check_data, check_point_return, FnntwResult, QueryKResult},
     Node, Tree,
 };
 use ordered_float::NotNan;
@@ -23,6 +23,12 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
         #[cfg(feature = "timing")]
         let alloc_timer = std::time::Instant::now();
 
+        // There are no neighbors to look for
+        if k == 0 {
+            check_data(queries)?;
+            return Ok(Default::default());
+        }
+
         // There are at most this many neighbors
         let k = k.min(self.data.len());
 
-- 
2.43.0


From f49885dd62a86cc3efc660d542029e5aa578e16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:19 +0000
Subject: [PATCH 06/11] fix: repeated values no longer degenerate the tree to a
 list

---
 src/moms.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/moms.rs b/src/moms.rs
index 90295f0..9f3a846 100644
--- a/src/moms.rs
+++ b/src/moms.rs
@@ -296,7 +296,10 @@ pub fn moms_seq<T: Float, const D: usize>(
         right_timer.elapsed().as_micros()
     );
 
-    let (left, remainder) = slice.split_at_mut(left);
+    // Any of the elements equal to the approximate median can split the slice. Use the one closest
+    // to the middle, so that repeated values end up on both sides.
+    let mid = (slice.len() / 2).max(left).min(left + equal - 1);
+    let (left, remainder) = slice.split_at_mut(mid);
     let (approx_median, right) = remainder.split_first_mut().unwrap();
 
     (left, approx_median, right)
-- 
2.43.0


From 70bd58e9e62d65cc147ab64e7a053b44d551c75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:19 +0000
Subject: [PATCH 07/11] fix: k-queries fill their result when squared distances
 overflow

---
 src/query.rs                 | 2 +-
 src/query_k.rs               | 6 +++---
 src/query_k/parallel.rs      | 4 ++--
 src/query_k/parallel_axis.rs | 6 +++---
 src/query_k/parallel_with.rs | 4 ++--
 5 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/query.rs b/src/query.rs
index db1b8d2..ad2dba4 100644
--- a/src/query.rs
+++ b/src/query.rs
@@ -39,7 +39,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
         let mut points_to_check: Vec<(&usize, &Point<T, D>, T)> =
             Vec::with_capacity(self.height_hint);
 
-        let mut current_best_dist_sq = T::max_value();
+        let mut current_best_dist_sq = T::infinity();
         let mut current_best_neighbor: &'q Point<T, D> = current_node.stem();
 
         // Recurse down (and then up and down) the stem
diff --git a/src/query_k.rs b/src/query_k.rs
index 8e258c0..c5580cf 100644
--- a/src/query_k.rs
+++ b/src/query_k.rs
@@ -59,7 +59,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
 
         // Initialize candidate container with dummy point
         let mut container = Container::new(k.min(self.input.len()));
-        container.push((T::max_value(), current_node.stem()));
+        container.push((T::infinity(), current_node.stem()));
 
         // Recurse down (and then up and down) the stem
         self.check_stem_k(query, current_node, &mut container, &mut points_to_check);
@@ -89,7 +89,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
 
             // Initialize candidate container with dummy point
             let mut container = Container::new(k.min(self.input.len()));
-            container.push((T::max_value(), current_node.stem()));
+            container.push((T::infinity(), current_node.stem()));
 
             // Recurse down (and then up and down) the stem
             self.check_stem_k(query, current_node, &mut container, &mut points_to_check);
@@ -308,7 +308,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
 
         // Now we empty out the queue
         while let Some((sibling, parent, dist_sq_to_space)) = points_to_check.pop() {
-            let better_dist2 = dist_sq_to_space < *container.best_dist2();
+            let better_dist2 = dist_sq_to_space <= *container.best_dist2();
             if better_dist2 {
                 self.check_child_k(query, sibling, parent, container, points_to_check);
             }
diff --git a/src/query_k/parallel.rs b/src/query_k/parallel.rs
index 6914852..1022112 100644
--- a/src/query_k/parallel.rs
+++ b/src/query_k/parallel.rs
@@ -116,7 +116,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
     {
         // Get reference to the root node
         let current_node: &'q Node<T, D> = &self.root_node;
-        container.push((T::max_value(), current_node.stem()));
+        container.push((T::infinity(), current_node.stem()));
 
         // Recurse down (and then up and down) the stem
         self.check_stem_k(query, current_node, container, points_to_check);
@@ -142,7 +142,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
         let mut real_image_container: &mut Container<T, D> = {
             // Get reference to the root node
             let current_node: &Node<T, D> = &self.root_node;
-            container.push((T::max_value(), current_node.stem()));
+            container.push((T::infinity(), current_node.stem()));
 
             // Recurse down (and then up and down) the stem
             self.check_stem_k(query, current_node, container, points_to_check);
diff --git a/src/query_k/parallel_axis.rs b/src/query_k/parallel_axis.rs
index cdad02b..793d691 100644
--- a/src/query_k/parallel_axis.rs
+++ b/src/query_k/parallel_axis.rs
@@ -134,7 +134,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
         // Get reference to the root node
         let current_node: &'q Node<T, D> = &self.root_node;
         container.push((
-            (T::max_value(), T::max_value(), T::max_value()),
+            (T::infinity(), T::infinity(), T::infinity()),
             current_node.stem(),
         ));
 
@@ -174,7 +174,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
             // Get reference to the root node
             let current_node: &Node<T, D> = &self.root_node;
             container.push((
-                (T::max_value(), T::max_value(), T::max_value()),
+                (T::infinity(), T::infinity(), T::infinity()),
                 current_node.stem(),
             ));
 
@@ -404,7 +404,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
 
         // Now we empty out the queue
         while let Some((sibling, parent, dist_sq_to_space)) = points_to_check.pop() {
-            let better_dist2 = dist_sq_to_space < *container.best_dist2();
+            let better_dist2 = dist_sq_to_space <= *container.best_dist2();
             if better_dist2 {
                 self.check_child_k_axis(query, sibling, parent, container, points_to_check, axis);
             }
diff --git a/src/query_k/parallel_with.rs b/src/query_k/parallel_with.rs
index 580baae..7a31d12 100644
--- a/src/query_k/parallel_with.rs
+++ b/src/query_k/parallel_with.rs
@@ -131,7 +131,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
     {
         // Get reference to the root node
         let current_node: &'q Node<T, D> = &self.root_node;
-        container.push((T::max_value(), current_node.stem()));
+        container.push((T::infinity(), current_node.stem()));
 
         // Recurse down (and then up and down) the stem
         self.check_stem_k(query, current_node, container, points_to_check);
@@ -157,7 +157,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
         let real_image_container: &mut Container<T, D> = {
             // Get reference to the root node
             let current_node: &Node<T, D> = &self.root_node;
-            container.push((T::max_value(), current_node.stem()));
+            container.push((T::infinity(), current_node.stem()));
 
             // Recurse down (and then up and down) the stem
             self.check_stem_k(query, current_node, container, points_to_check);
-- 
2.43.0


From 480bd79244e2c650a61a12d4c4e0605c4c0c5336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:03 +0000
Subject: [PATCH 08/11] fix: invalid arrays raise Python exceptions instead of
 panicking

---
 pyfnntw/src/lib.rs | 46 +++++++++++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/pyfnntw/src/lib.rs b/pyfnntw/src/lib.rs
index c7c9526..edd967f 100644
--- a/pyfnntw/src/lib.rs
+++ b/pyfnntw/src/lib.rs
@@ -59,7 +59,7 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                     // a copy of the data
                     let data: &[[f32; 2]] = unsafe {
                         std::mem::transmute(slice_as_chunks::<f32, 2>(
-                            data.as_array().as_slice().unwrap(),
+                            data.as_array().as_slice().ok_or_else(not_contiguous)?,
                         ))
                     };
 
@@ -94,7 +94,7 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                     // a copy of the data
                     let data: &[[f32; 3]] = unsafe {
                         std::mem::transmute(slice_as_chunks::<f32, 3>(
-                            data.as_array().as_slice().unwrap(),
+                            data.as_array().as_slice().ok_or_else(not_contiguous)?,
                         ))
                     };
 
@@ -214,7 +214,7 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                     // a copy of the data
                     let data: &[[f64; 2]] = unsafe {
                         std::mem::transmute(slice_as_chunks::<f64, 2>(
-                            data.as_array().as_slice().unwrap(),
+                            data.as_array().as_slice().ok_or_else(not_contiguous)?,
                         ))
                     };
 
@@ -226,10 +226,9 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                                 Box<dyn std::error::Error>,
                             > {
                                 let tree = if let Some(psl) = par_split_level {
-                                    FNNTWTree::<'_, f64, 2>::new_parallel(data, leafsize, psl)
-                                        .unwrap()
+                                    FNNTWTree::<'_, f64, 2>::new_parallel(data, leafsize, psl)?
                                 } else {
-                                    FNNTWTree::<'_, f64, 2>::new(data, leafsize).unwrap()
+                                    FNNTWTree::<'_, f64, 2>::new(data, leafsize)?
                                 };
                                 if let Some(boxsize) = boxsize {
                                     let boxsize: [f64; 2] = boxsize.as_slice()?.try_into()?;
@@ -250,7 +249,7 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                     // a copy of the data
                     let data: &[[f64; 3]] = unsafe {
                         std::mem::transmute(slice_as_chunks::<f64, 3>(
-                            data.as_array().as_slice().unwrap(),
+                            data.as_array().as_slice().ok_or_else(not_contiguous)?,
                         ))
                     };
 
@@ -262,10 +261,9 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                                 Box<dyn std::error::Error>,
                             > {
                                 let tree = if let Some(psl) = par_split_level {
-                                    FNNTWTree::<'_, f64, 3>::new_parallel(data, leafsize, psl)
-                                        .unwrap()
+                                    FNNTWTree::<'_, f64, 3>::new_parallel(data, leafsize, psl)?
                                 } else {
-                                    FNNTWTree::<'_, f64, 3>::new(data, leafsize).unwrap()
+                                    FNNTWTree::<'_, f64, 3>::new(data, leafsize)?
                                 };
                                 if let Some(boxsize) = boxsize {
                                     let boxsize: [f64; 3] = boxsize.as_slice()?.try_into()?;
@@ -451,6 +449,10 @@ struct Tree3<'a, T: Float> {
 //     }
 // }
 
+fn not_contiguous() -> PyErr {
+    PyValueError::new_err("The array must be C-contiguous")
+}
+
 trait FNTree<T: Float> {
     fn query(&self, query: ArrayView2<T>) -> PyResult<(Vec<T>, Vec<u64>)>;
     fn query_k(&self, query: ArrayView2<T>, k: usize) -> PyResult<(Vec<T>, Vec<u64>)>;
@@ -480,18 +482,24 @@ macro_rules! tree_impl {
                         ));
                     }
 
-                    let query: &[[$float; $dim]] = slice_as_chunks::<$float, $dim>(query.as_slice().unwrap());
+                    let query: &[[$float; $dim]] = slice_as_chunks::<$float, $dim>(query.as_slice().ok_or_else(not_contiguous)?);
 
                     let kdtree = self.borrow_tree();
                     let query_size = query.len();
-                    let mut distances = Vec::with_capacity(query_size);
-                    let mut indices = Vec::with_capacity(query_size);
+                    let mut results = Vec::with_capacity(query_size);
                     query
                         .into_par_iter()
-                        .map_with(kdtree, |t, q| {
-                            t.query_nearest(q).expect("you likely have a nan")
-                        })
-                        .unzip_into_vecs(&mut distances, &mut indices);
+                        .map_with(kdtree, |t, q| t.query_nearest(q))
+                        .collect_into_vec(&mut results);
+                    let mut distances = Vec::with_capacity(query_size);
+                    let mut indices = Vec::with_capacity(query_size);
+                    for result in results {
+                        let (distance, index) = result.map_err(|e| {
+                            PyValueError::new_err(format!("query failed {e}"))
+                        })?;
+                        distances.push(distance);
+                        indices.push(index);
+                    }
 
                     Ok((distances, indices))
                 }
@@ -516,7 +524,7 @@ macro_rules! tree_impl {
                     // Transform slice of floats into slice of arrays
                     let query: &[[$float; $dim]] = slice_as_chunks::<$float, $dim>(query
                         .as_slice()
-                        .unwrap()
+                        .ok_or_else(not_contiguous)?
                     );
 
                     {
@@ -597,7 +605,7 @@ macro_rules! tree_impl {
                     // Transform slice of floats into slice of arrays
                     let query: &[[$float; $dim]] = slice_as_chunks::<$float, $dim>(query
                         .as_slice()
-                        .unwrap()
+                        .ok_or_else(not_contiguous)?
                     );
 
                     self.borrow_tree().query_nearest_k_parallel_axis(query, k, axis).map_err(|e| {
-- 
2.43.0


From 95b5046ff6dbcf9baccadc63975ca1048311503c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:03 +0000
Subject: [PATCH 09/11] fix: Python k-queries return min(k, n) neighbors when k
 exceeds n

---
 pyfnntw/src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pyfnntw/src/lib.rs b/pyfnntw/src/lib.rs
index edd967f..cfe0411 100644
--- a/pyfnntw/src/lib.rs
+++ b/pyfnntw/src/lib.rs
@@ -139,6 +139,8 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
             if let Some(axis) = axis {
                 let k = k.unwrap_or(1);
                 let (axis, nonaxis) = slf.0.query_k_axis(query.as_array(), k, axis)?;
+                // There may be fewer than k neighbors
+                let k = axis.len().checked_div(query.shape()[0]).unwrap_or(k);
                 let distances =
                     unsafe { Array2::from_shape_vec_unchecked((query.shape()[0], k), axis) };
                 let indices =
@@ -159,6 +161,8 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                 } else {
                     let k = k.unwrap();
                     let (distances, indices) = slf.0.query_k(query.as_array(), k)?;
+                    // There may be fewer than k neighbors
+                    let k = distances.len().checked_div(query.shape()[0]).unwrap_or(k);
                     // SAFETY: the shape has been checked aldready
                     let distances = unsafe {
                         Array2::from_shape_vec_unchecked((query.shape()[0], k), distances)
@@ -325,6 +329,8 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
             if let Some(axis) = axis {
                 let k = k.unwrap_or(1);
                 let (axis, nonaxis) = slf.0.query_k_axis(query.as_array(), k, axis)?;
+                // There may be fewer than k neighbors
+                let k = axis.len().checked_div(query.shape()[0]).unwrap_or(k);
                 let distances =
                     unsafe { Array2::from_shape_vec_unchecked((query.shape()[0], k), axis) };
                 let indices =
@@ -345,6 +351,8 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                 } else {
                     let k = k.unwrap();
                     let (distances, indices) = slf.0.query_k(query.as_array(), k)?;
+                    // There may be fewer than k neighbors
+                    let k = distances.len().checked_div(query.shape()[0]).unwrap_or(k);
                     // SAFETY: the shape has been checked aldready
                     let distances = unsafe {
                         Array2::from_shape_vec_unchecked((query.shape()[0], k), distances)
@@ -543,6 +551,8 @@ macro_rules! tree_impl {
 
                     // current best
                     {
+                        // There are at most this many neighbors
+                        let k = k.min(self.borrow_tree().get_data().len());
                         let mut distances = Vec::with_capacity(query.len() * k);
                         let mut indices = Vec::with_capacity(query.len() * k);
                         let dist_ptr_usize = distances.as_mut_ptr() as usize;
-- 
2.43.0


From 4cb55a7a893d16643336fd70988abd3421cb00ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:15 +0000
Subject: [PATCH 10/11] fix: Python trees keep the array they refer to alive

---
 pyfnntw/src/lib.rs | 42 ++++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/pyfnntw/src/lib.rs b/pyfnntw/src/lib.rs
index cfe0411..c9b9b11 100644
--- a/pyfnntw/src/lib.rs
+++ b/pyfnntw/src/lib.rs
@@ -15,9 +15,17 @@ use rayon::prelude::*;
 #[pymodule]
 fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
     #[pyclass]
-    struct Treef32(Box<dyn FNTree<f32> + Send + Sync + 'static>);
+    struct Treef32(
+        Box<dyn FNTree<f32> + Send + Sync + 'static>,
+        // Keeps the data alive
+        #[allow(unused)] Py<PyArray2<f32>>,
+    );
     #[pyclass]
-    struct Treef64(Box<dyn FNTree<f64> + Send + Sync + 'static>);
+    struct Treef64(
+        Box<dyn FNTree<f64> + Send + Sync + 'static>,
+        // Keeps the data alive
+        #[allow(unused)] Py<PyArray2<f64>>,
+    );
 
     #[pymethods]
     impl Treef32 {
@@ -28,6 +36,9 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
             par_split_level: Option<usize>,
             boxsize: Option<PyReadonlyArray1<f32>>,
         ) -> PyResult<Treef32> {
+            // The tree refers to the data, so it shares the ownership of the array
+            let owner: Py<PyArray2<f32>> = (&*data).into();
+
             let threads = std::thread::available_parallelism()?.into();
             match rayon::ThreadPoolBuilder::new()
                 .num_threads(threads)
@@ -54,9 +65,7 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
             // Check dimensionality is as expected
             match dims[1] {
                 2 => {
-                    // SAFETY: this data is owned by python and so the reference will remain valid for longer than this scope.
-                    // Note that it is still very possible to use-after-free but there's not much we can do about it without making
-                    // a copy of the data
+                    // SAFETY: this data is owned by python, and kept alive by the returned object, which outlives the tree.
                     let data: &[[f32; 2]] = unsafe {
                         std::mem::transmute(slice_as_chunks::<f32, 2>(
                             data.as_array().as_slice().ok_or_else(not_contiguous)?,
@@ -86,12 +95,10 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                         .try_build()
                         .map_err(|e| PyValueError::new_err(format!("failed to build tree: {e}")))?;
 
-                    Ok(Treef32(Box::new(tree)))
+                    Ok(Treef32(Box::new(tree), owner))
                 }
                 3 => {
-                    // SAFETY: this data is owned by python and so the reference will remain valid for longer than this scope.
-                    // Note that it is still very possible to use-after-free but there's not much we can do about it without making
-                    // a copy of the data
+                    // SAFETY: this data is owned by python, and kept alive by the returned object, which outlives the tree.
                     let data: &[[f32; 3]] = unsafe {
                         std::mem::transmute(slice_as_chunks::<f32, 3>(
                             data.as_array().as_slice().ok_or_else(not_contiguous)?,
@@ -120,7 +127,7 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                         }
                         .try_build()
                         .map_err(|e| PyValueError::new_err(format!("failed to build tree: {e}")))?;
-                    Ok(Treef32(Box::new(tree)))
+                    Ok(Treef32(Box::new(tree), owner))
                 }
                 _ => {
                     return Err(PyErr::new::<exceptions::PyTypeError, _>(
@@ -187,6 +194,9 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
             par_split_level: Option<usize>,
             boxsize: Option<PyReadonlyArray1<f64>>,
         ) -> PyResult<Treef64> {
+            // The tree refers to the data, so it shares the ownership of the array
+            let owner: Py<PyArray2<f64>> = (&*data).into();
+
             let threads = std::thread::available_parallelism()?.into();
             match rayon::ThreadPoolBuilder::new()
                 .num_threads(threads)
@@ -213,9 +223,7 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
             // Check dimensionality is as expected
             match dims[1] {
                 2 => {
-                    // SAFETY: this data is owned by python and so the reference will remain valid for longer than this scope.
-                    // Note that it is still very possible to use-after-free but there's not much we can do about it without making
-                    // a copy of the data
+                    // SAFETY: this data is owned by python, and kept alive by the returned object, which outlives the tree.
                     let data: &[[f64; 2]] = unsafe {
                         std::mem::transmute(slice_as_chunks::<f64, 2>(
                             data.as_array().as_slice().ok_or_else(not_contiguous)?,
@@ -245,12 +253,10 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                         .try_build()
                         .map_err(|e| PyValueError::new_err(format!("failed to build tree: {e}")))?;
 
-                    Ok(Treef64(Box::new(tree)))
+                    Ok(Treef64(Box::new(tree), owner))
                 }
                 3 => {
-                    // SAFETY: this data is owned by python and so the reference will remain valid for longer than this scope.
-                    // Note that it is still very possible to use-after-free but there's not much we can do about it without making
-                    // a copy of the data
+                    // SAFETY: this data is owned by python, and kept alive by the returned object, which outlives the tree.
                     let data: &[[f64; 3]] = unsafe {
                         std::mem::transmute(slice_as_chunks::<f64, 3>(
                             data.as_array().as_slice().ok_or_else(not_contiguous)?,
@@ -280,7 +286,7 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                         .try_build()
                         .map_err(|e| PyValueError::new_err(format!("failed to build tree: {e}")))?;
 
-                    Ok(Treef64(Box::new(tree)))
+                    Ok(Treef64(Box::new(tree), owner))
                 }
                 _ => {
                     return Err(PyErr::new::<exceptions::PyTypeError, _>(
-- 
2.43.0


From 68d1af66109a6a26b04850ba3a650fa4e46bfc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:33 +0000
Subject: [PATCH 11/11] fix: moms_seq indexed out of bounds for an axis outside
 the dimensions

---
 src/moms.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/moms.rs b/src/moms.rs
index 9f3a846..afcb7e7 100644
--- a/src/moms.rs
+++ b/src/moms.rs
@@ -165,6 +165,9 @@ pub fn moms_seq<T: Float, const D: usize>(
     chunk_size: Option<usize>,
     axis: usize,
 ) -> (&mut [Point<T, D>], &mut Point<T, D>, &mut [Point<T, D>]) {
+    // The components of the points are accessed without bounds checks
+    assert!(axis < D, "axis exceeds dimensionality");
+
     if slice.len() < 100_000 {
         return slice.select_nth_unstable_by(slice.len() / 2, |a, b| unsafe {
             a.get_unchecked(axis)
-- 
2.43.0

