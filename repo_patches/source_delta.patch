From 283cf1f6a9083219fce23d7b74b0a3137f3545e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 01/15] fix: AABB::contains for points had its comparisons
 reversed

---
 src/bounds.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bounds.rs b/src/bounds.rs
index 0bb0faf..36c5b44 100644
--- a/src/bounds.rs
+++ b/src/bounds.rs
@@ -54,7 +54,7 @@ where
     V: Vector,
 {
     fn contains(&self, point: &V) -> bool {
-        self.min.all_ge(point) && self.max.all_le(point)
+        self.min.all_le(point) && self.max.all_ge(point)
     }
 }
 
-- 
2.43.0


From ce9d184ac2114853cbd8ffd47593f6384ac63a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 02/15] fix: AABB::contains for boxes tested intersection
 instead of containment

---
 src/bounds.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bounds.rs b/src/bounds.rs
index 36c5b44..8cb220f 100644
--- a/src/bounds.rs
+++ b/src/bounds.rs
@@ -63,7 +63,7 @@ where
     V: Vector,
 {
     fn contains(&self, bounds: &AABB<V>) -> bool {
-        self.min.all_le(&bounds.max) && self.max.all_ge(&bounds.min)
+        self.min.all_le(&bounds.min) && self.max.all_ge(&bounds.max)
     }
 }
 
-- 
2.43.0


From a1911308e497f1f6332c9954f8d98daba2e0d2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 03/15] fix: remove now removes the first of several entries
 with the same key

It visited children last to first, so with equal keys spread over several
leaves it removed a different entry than the one get returns.
---
 src/node.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index e3d564c..0113de4 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -524,9 +524,7 @@ where
         let min_children = self.alloc.min_children;
         match self.children_mut() {
             NodeChildrenRefMut::Inner(mut children) => {
-                let mut i = children.len();
-                while i > 0 {
-                    i -= 1;
+                for i in 0..children.len() {
                     let mut child = children.at_mut(i);
                     if child.bounds().intersects(&key.bounds()) {
                         let value = child.remove(key, on_underfull);
-- 
2.43.0


From 1fcbf22f3e9b47b0d55a7021bd0d0dc7a08c91a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 04/15] fix: removing the last entry of a one-child chain left
 an inner root without children

With min_children = 1 the root was shrunk by at most one level per removal, so
it could end up as an inner node with no children, on which the next insert
panicked.
---
 src/node.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index 0113de4..a5270e6 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -768,8 +768,6 @@ where
             let level = children.level();
             reinsert_entries[level] = Some(children.leak());
         }) {
-            self.try_unbranch();
-
             for (level, entries) in reinsert_entries.iter_mut().enumerate() {
                 if let Some(entries) = entries.take() {
                     // SAFETY: The children in `reinsert_entries` are placed in
@@ -793,6 +791,10 @@ where
                 }
             }
 
+            // The tree may have to shrink by several levels if nodes may have a
+            // single child.
+            while self.try_unbranch() {}
+
             Some(value)
         } else {
             None
@@ -839,7 +841,9 @@ impl<B, Key, Value> NodeContainer<B, Key, Value> {
         self.level += 1;
     }
 
-    fn try_unbranch(&mut self) {
+    /// Replaces the root with its child if it has a single one. Returns `true`
+    /// if the root was replaced.
+    fn try_unbranch(&mut self) -> bool {
         let new_root = match self.borrow_mut().children_mut() {
             NodeChildrenRefMut::Inner(mut children) => {
                 if children.len() == 1 {
@@ -855,6 +859,9 @@ impl<B, Key, Value> NodeContainer<B, Key, Value> {
         };
         if let Some(new_root) = new_root {
             *self = new_root;
+            true
+        } else {
+            false
         }
     }
 
-- 
2.43.0


From 60798f3db50933dd4efc8c9dff9336c19411a910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:27 +0000
Subject: [PATCH 05/15] fix: do not test or rank the bounds of an empty tree

---
 src/iter.rs      | 56 +++++++++++++++++++++++++++---------------------
 src/join.rs      |  5 ++++-
 src/left_join.rs | 12 +++++++----
 src/node.rs      |  4 ++++
 4 files changed, 48 insertions(+), 29 deletions(-)

diff --git a/src/iter.rs b/src/iter.rs
index 2bdccc8..991e78d 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -131,7 +131,7 @@ where
 {
     pub(crate) fn new(root: NodeRef<'a, B, Key, Value>, filter: F) -> Self {
         Self {
-            iter: if filter.test_bounds(&root.node().bounds) {
+            iter: if !root.is_empty() && filter.test_bounds(&root.node().bounds) {
                 Iter::new(root)
             } else {
                 Iter::new_empty()
@@ -278,7 +278,7 @@ where
 {
     pub(crate) fn new(root: NodeRefMut<'a, B, Key, Value>, filter: F) -> Self {
         Self {
-            iter: if filter.test_bounds(&root.node().bounds) {
+            iter: if !root.is_empty() && filter.test_bounds(&root.node().bounds) {
                 IterMut::new(root)
             } else {
                 IterMut::new_empty()
@@ -361,10 +361,12 @@ where
 {
     pub(crate) fn new(root: NodeRef<'a, B, Key, Value>, ranking: R) -> Self {
         let mut entries = BinaryHeap::new();
-        entries.push(Ranked {
-            score: Reverse((ranking.bounds_min(&root.node().bounds), root.level() + 1)),
-            value: SortedIterItem { node: root.node() },
-        });
+        if !root.is_empty() {
+            entries.push(Ranked {
+                score: Reverse((ranking.bounds_min(&root.node().bounds), root.level() + 1)),
+                value: SortedIterItem { node: root.node() },
+            });
+        }
         SortedIter {
             ranking,
             entries,
@@ -433,12 +435,14 @@ where
 {
     pub(crate) fn new(root: NodeRefMut<'a, B, Key, Value>, ranking: R) -> Self {
         let mut entries = BinaryHeap::new();
-        entries.push(Ranked {
-            score: Reverse((ranking.bounds_min(&root.node().bounds), root.level() + 1)),
-            value: SortedIterItemMut {
-                node: root.into_node(),
-            },
-        });
+        if !root.is_empty() {
+            entries.push(Ranked {
+                score: Reverse((ranking.bounds_min(&root.node().bounds), root.level() + 1)),
+                value: SortedIterItemMut {
+                    node: root.into_node(),
+                },
+            });
+        }
         SortedIterMut {
             ranking,
             entries,
@@ -504,11 +508,13 @@ where
 {
     pub(crate) fn new(root: NodeRef<'a, B, Key, Value>, ranking: R) -> Self {
         let mut entries = BinaryHeap::new();
-        if let Some(score) = ranking.bounds_min(&root.node().bounds) {
-            entries.push(Ranked {
-                score: Reverse((score, root.level() + 1)),
-                value: SortedIterItem { node: root.node() },
-            });
+        if !root.is_empty() {
+            if let Some(score) = ranking.bounds_min(&root.node().bounds) {
+                entries.push(Ranked {
+                    score: Reverse((score, root.level() + 1)),
+                    value: SortedIterItem { node: root.node() },
+                });
+            }
         }
         Self {
             ranking,
@@ -580,13 +586,15 @@ where
 {
     pub(crate) fn new(root: NodeRefMut<'a, B, Key, Value>, ranking: R) -> Self {
         let mut entries = BinaryHeap::new();
-        if let Some(score) = ranking.bounds_min(&root.node().bounds) {
-            entries.push(Ranked {
-                score: Reverse((score, root.level() + 1)),
-                value: SortedIterItemMut {
-                    node: root.into_node(),
-                },
-            });
+        if !root.is_empty() {
+            if let Some(score) = ranking.bounds_min(&root.node().bounds) {
+                entries.push(Ranked {
+                    score: Reverse((score, root.level() + 1)),
+                    value: SortedIterItemMut {
+                        node: root.into_node(),
+                    },
+                });
+            }
         }
         Self {
             ranking,
diff --git a/src/join.rs b/src/join.rs
index 7c2c756..08e1073 100644
--- a/src/join.rs
+++ b/src/join.rs
@@ -127,7 +127,10 @@ where
         root1: NodeRef<'b, B1, Key1, Value1>,
         filter: Filter,
     ) -> Self {
-        if !filter.test_bounds(&root0.node().bounds, &root1.node().bounds) {
+        if root0.is_empty()
+            || root1.is_empty()
+            || !filter.test_bounds(&root0.node().bounds, &root1.node().bounds)
+        {
             return Self {
                 stack: IterStack::empty_box(),
                 padding0: 0,
diff --git a/src/left_join.rs b/src/left_join.rs
index 6e76c3e..a15912f 100644
--- a/src/left_join.rs
+++ b/src/left_join.rs
@@ -114,15 +114,19 @@ where
             empty_slice().iter(),
             (0..root_left.level() + 1).map(|_| empty_slice().iter()),
         );
-        left[NonZeroUsize::new(root_left.level() + 1).unwrap()] =
-            slice::from_ref(root_left.node()).iter();
+        if !root_left.is_empty() {
+            left[NonZeroUsize::new(root_left.level() + 1).unwrap()] =
+                slice::from_ref(root_left.node()).iter();
+        }
 
         let mut right = IterStack::new_box(
             RewindableIter::new(empty_slice()),
             (0..root_right.level() + 1).map(|_| RewindableIter::new(empty_slice())),
         );
-        right[NonZeroUsize::new(root_right.level() + 1).unwrap()] =
-            RewindableIter::new(slice::from_ref(root_right.node()));
+        if !root_right.is_empty() {
+            right[NonZeroUsize::new(root_right.level() + 1).unwrap()] =
+                RewindableIter::new(slice::from_ref(root_right.node()));
+        }
 
         let right_alloc = unsafe {
             let alloc_helper = IterStackAllocHelper::new(root_right.level() + 2);
diff --git a/src/node.rs b/src/node.rs
index a5270e6..7b7b610 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -566,6 +566,10 @@ impl<'a, B, Key, Value> NodeRefMut<'a, B, Key, Value> {
         self.node
     }
 
+    pub(crate) fn is_empty(&self) -> bool {
+        self.shallow_len() == 0
+    }
+
     pub(crate) fn into_node(self) -> &'a mut Node<B, Key, Value> {
         self.node
     }
-- 
2.43.0


From 0bcbf05c245d7339f27dca873c4e9b734fff77f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 06/15] fix: quadratic split could leave a node below
 min_children

When both groups were about to fall short, the last values all went to the
second group, so e.g. max_children = 3, min_children = 2 split 4 values 3/1.
---
 src/split.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/split.rs b/src/split.rs
index 747e697..2b1ecf3 100644
--- a/src/split.rs
+++ b/src/split.rs
@@ -126,7 +126,7 @@ where
             let add_to_group_1 = if candidate_1.1 < candidate_2.1 {
                 group_2.len() + remaining.len() > min_children
             } else {
-                group_1_len + remaining.len() - 1 == min_children
+                group_1_len + remaining.len() - 1 < min_children
             };
 
             if add_to_group_1 {
-- 
2.43.0


From 371b511899b8a907fbb890c24a916ecb7ed1c644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 07/15] fix: box volume and sq_dist_to overflowed in the
 coordinate type

Subtract after the conversion to f64: i32 keys further apart than i32::MAX and
the distance of unsigned boxes panicked (or wrapped).
---
 src/bounds.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bounds.rs b/src/bounds.rs
index 8cb220f..86058c4 100644
--- a/src/bounds.rs
+++ b/src/bounds.rs
@@ -140,7 +140,7 @@ where
 
         self.min
             .zip(&self.max)
-            .map(|(min, max)| n64((max.clone() - min.clone()).into()))
+            .map(|(min, max)| n64(max.clone().into() - min.clone().into()))
             .reduce(|acc, length| acc * length)
             .unwrap()
     }
@@ -159,9 +159,9 @@ where
         )
         .map(|(lhs_min, lhs_max, rhs_min, rhs_max)| {
             // If lhs < rhs, lhs_then_rhs is a positive number representing the distance between the two
-            let lhs_then_rhs = n64((rhs_min.clone() - lhs_max.clone()).into());
+            let lhs_then_rhs = n64(rhs_min.clone().into() - lhs_max.clone().into());
             // If lhs > rhs, rhs_then_lhs is a positive number representing the distance between the two
-            let rhs_then_lhs = n64((lhs_min.clone() - rhs_max.clone()).into());
+            let rhs_then_lhs = n64(lhs_min.clone().into() - rhs_max.clone().into());
 
             // The distance between the two bounds is the maximum of the two distances, or 0 if they overlap
             let dist = cmp::max(cmp::max(lhs_then_rhs, rhs_then_lhs), n64(0.0));
-- 
2.43.0


From 7ce8614101a97140297be1f35c5427170e97207f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:18 +0000
Subject: [PATCH 08/15] fix: ray intersection hit boxes behind the origin and
 missed flat ones

The interval along the ray did not start at the origin, the strict comparison
never accepted a box without extent along the ray, and the first axis treated
its boundary differently from the others.
---
 src/intersects.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/intersects.rs b/src/intersects.rs
index afbebd3..29cbce8 100644
--- a/src/intersects.rs
+++ b/src/intersects.rs
@@ -38,14 +38,10 @@ pub(crate) fn ray_bounds_intersect<N, const D: usize>(
 where
     N: Clone + Sub<Output = N> + Into<f64>,
 {
-    let n_inv = 1.0 / (delta[0].clone()).into();
-    let t1 = (b.min[0].clone() - origin[0].clone()).into() * n_inv;
-    let t2 = (b.max[0].clone() - origin[0].clone()).into() * n_inv;
-
-    let mut tmin = f64_min(t1, t2);
-    let mut tmax = f64_max(t1, t2);
+    let mut tmin: f64 = 0.0;
+    let mut tmax: f64 = f64::INFINITY;
 
-    for dim in 1..D {
+    for dim in 0..D {
         let n_inv = 1.0 / (delta[dim].clone()).into();
         let t1 = (b.min[dim].clone() - origin[dim].clone()).into() * n_inv;
         let t2 = (b.max[dim].clone() - origin[dim].clone()).into() * n_inv;
@@ -54,7 +50,8 @@ where
         tmax = f64_max(f64_min(t1, tmax), f64_min(t2, tmax));
     }
 
-    tmin < tmax
+    // A ray parallel to an axis and outside the bounds never enters them.
+    tmin <= tmax && tmin < f64::INFINITY
 }
 
 pub(crate) fn line_bounds_intersect<N, const D: usize>(
-- 
2.43.0


From bf3590c06863e7d4e83beec05b57757b37fa0105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 09/15] fix: lines and rays could miss a box they touch at a
 corner

The reciprocal rounded, e.g. the line (0, 0) to (5, 15) missed the point (3, 9).
---
 src/intersects.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/intersects.rs b/src/intersects.rs
index 29cbce8..848e19b 100644
--- a/src/intersects.rs
+++ b/src/intersects.rs
@@ -42,9 +42,10 @@ where
     let mut tmax: f64 = f64::INFINITY;
 
     for dim in 0..D {
-        let n_inv = 1.0 / (delta[dim].clone()).into();
-        let t1 = (b.min[dim].clone() - origin[dim].clone()).into() * n_inv;
-        let t2 = (b.max[dim].clone() - origin[dim].clone()).into() * n_inv;
+        // Dividing rounds correctly, so that equal ratios give equal results.
+        let n = (delta[dim].clone()).into();
+        let t1 = (b.min[dim].clone() - origin[dim].clone()).into() / n;
+        let t2 = (b.max[dim].clone() - origin[dim].clone()).into() / n;
 
         tmin = f64_min(f64_max(t1, tmin), f64_max(t2, tmin));
         tmax = f64_max(f64_min(t1, tmax), f64_min(t2, tmax));
@@ -66,9 +67,10 @@ where
     let mut tmax: f64 = 1.0;
 
     for dim in 0..D {
-        let n_inv = 1.0 / (delta[dim].clone()).into();
-        let t1 = (b.min[dim].clone() - origin[dim].clone()).into() * n_inv;
-        let t2 = (b.max[dim].clone() - origin[dim].clone()).into() * n_inv;
+        // Dividing rounds correctly, so that equal ratios give equal results.
+        let n = (delta[dim].clone()).into();
+        let t1 = (b.min[dim].clone() - origin[dim].clone()).into() / n;
+        let t2 = (b.max[dim].clone() - origin[dim].clone()).into() / n;
 
         tmin = f64_min(f64_max(t1, tmin), f64_max(t2, tmin));
         tmax = f64_max(f64_min(t1, tmax), f64_min(t2, tmax));
-- 
2.43.0


From db25d1bb4ab7d83fddbd1a016ee494da2c8d3665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 10/15] fix: line and ray tests overflowed in the coordinate
 type

Subtract after the conversion to f64, so that unsigned and far apart integer
coordinates neither panic nor wrap.
---
 src/intersects.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/intersects.rs b/src/intersects.rs
index 848e19b..a81684e 100644
--- a/src/intersects.rs
+++ b/src/intersects.rs
@@ -44,8 +44,9 @@ where
     for dim in 0..D {
         // Dividing rounds correctly, so that equal ratios give equal results.
         let n = (delta[dim].clone()).into();
-        let t1 = (b.min[dim].clone() - origin[dim].clone()).into() / n;
-        let t2 = (b.max[dim].clone() - origin[dim].clone()).into() / n;
+        let origin = origin[dim].clone().into();
+        let t1 = (b.min[dim].clone().into() - origin) / n;
+        let t2 = (b.max[dim].clone().into() - origin) / n;
 
         tmin = f64_min(f64_max(t1, tmin), f64_max(t2, tmin));
         tmax = f64_max(f64_min(t1, tmax), f64_min(t2, tmax));
@@ -69,8 +70,9 @@ where
     for dim in 0..D {
         // Dividing rounds correctly, so that equal ratios give equal results.
         let n = (delta[dim].clone()).into();
-        let t1 = (b.min[dim].clone() - origin[dim].clone()).into() / n;
-        let t2 = (b.max[dim].clone() - origin[dim].clone()).into() / n;
+        let origin = origin[dim].clone().into();
+        let t1 = (b.min[dim].clone().into() - origin) / n;
+        let t2 = (b.max[dim].clone().into() - origin) / n;
 
         tmin = f64_min(f64_max(t1, tmin), f64_max(t2, tmin));
         tmax = f64_max(f64_min(t1, tmax), f64_min(t2, tmax));
-- 
2.43.0


From 03cc37646db2f85aabba44d2d796462da709297a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 11/15] fix: zero-sized entries allocated a zero-sized layout
 and got lost

fc_vec passed a zero-sized layout to the global allocator, and its IntoIter
counted values by pointer difference (zero or a division by zero).
---
 src/fc_vec.rs | 41 ++++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/src/fc_vec.rs b/src/fc_vec.rs
index e02d8c8..eded8ca 100644
--- a/src/fc_vec.rs
+++ b/src/fc_vec.rs
@@ -128,9 +128,13 @@ impl Alloc {
     /// Alloc in a safe [FCVecContainer<T>].
     pub(crate) fn new_vec<T>(&self) -> FCVecContainer<T> {
         let layout = alloc::Layout::array::<T>(self.cap).unwrap();
-        let buf = match NonNull::new(unsafe { alloc::alloc(layout) } as *mut T) {
-            Some(ptr) => ptr,
-            None => alloc::handle_alloc_error(layout),
+        let buf = if layout.size() == 0 {
+            NonNull::dangling()
+        } else {
+            match NonNull::new(unsafe { alloc::alloc(layout) } as *mut T) {
+                Some(ptr) => ptr,
+                None => alloc::handle_alloc_error(layout),
+            }
         };
         FCVecContainer {
             data: FCVec { buf, len: 0 },
@@ -334,7 +338,9 @@ impl<'a, T> FCVecRefMut<'a, T> {
         while self.pop().is_some() {}
 
         let layout = alloc::Layout::array::<T>(self.ops.cap).unwrap();
-        alloc::dealloc(self.data.buf.as_ptr() as *mut u8, layout);
+        if layout.size() != 0 {
+            alloc::dealloc(self.data.buf.as_ptr() as *mut u8, layout);
+        }
     }
 }
 
@@ -441,13 +447,11 @@ impl<T> IntoIterator for FCVecContainer<T> {
         let ops = unsafe { ptr::read(&self.ops) };
         mem::forget(self);
 
-        let start = data.buf.as_ptr();
-        let end = unsafe { start.add(data.len) };
         IntoIter {
             buf: data.buf,
             cap: ops.cap,
-            start,
-            end,
+            start: 0,
+            end: data.len,
         }
     }
 }
@@ -500,8 +504,9 @@ impl<T> FCVecContainer<T> {
 pub(crate) struct IntoIter<T> {
     buf: NonNull<T>,
     cap: usize,
-    start: *const T,
-    end: *const T,
+    // Indices, as pointers could not count zero-sized values.
+    start: usize,
+    end: usize,
 }
 
 impl<T> Iterator for IntoIter<T> {
@@ -512,15 +517,15 @@ impl<T> Iterator for IntoIter<T> {
             None
         } else {
             unsafe {
-                let result = ptr::read(self.start);
-                self.start = self.start.add(1);
+                let result = ptr::read(self.buf.as_ptr().add(self.start));
+                self.start += 1;
                 Some(result)
             }
         }
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let len = (self.end as usize - self.start as usize) / std::mem::size_of::<T>();
+        let len = self.end - self.start;
         (len, Some(len))
     }
 }
@@ -531,8 +536,8 @@ impl<T> DoubleEndedIterator for IntoIter<T> {
             None
         } else {
             unsafe {
-                self.end = self.end.sub(1);
-                let result = ptr::read(self.end);
+                self.end -= 1;
+                let result = ptr::read(self.buf.as_ptr().add(self.end));
                 Some(result)
             }
         }
@@ -543,8 +548,10 @@ impl<T> Drop for IntoIter<T> {
     fn drop(&mut self) {
         for _ in &mut *self {}
         let layout = alloc::Layout::array::<T>(self.cap).unwrap();
-        unsafe {
-            alloc::dealloc(self.buf.as_ptr() as *mut u8, layout);
+        if layout.size() != 0 {
+            unsafe {
+                alloc::dealloc(self.buf.as_ptr() as *mut u8, layout);
+            }
         }
     }
 }
-- 
2.43.0


From ddec9061ea1895411db19241f920a16533ef489f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 12/15] fix: sphere tests overflowed in the coordinate type

Subtract after the conversion to f64, so that unsigned and far apart integer
coordinates neither panic nor wrap.
---
 src/geom/sphere.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geom/sphere.rs b/src/geom/sphere.rs
index c45a4f8..58b5c34 100644
--- a/src/geom/sphere.rs
+++ b/src/geom/sphere.rs
@@ -34,7 +34,8 @@ where
     N: Clone + Sub<Output = N> + Into<f64>,
 {
     fn intersects(&self, rhs: &SVec<N, D>) -> bool {
-        let delta: SVec<f64, D> = (rhs.clone() - self.center.clone()).into_map(|n| n.into());
+        let center: SVec<f64, D> = self.center.clone().into_map(|n| n.into());
+        let delta = rhs.clone().into_map(|n| n.into()) - center;
         let radius: f64 = (self.radius.clone()).into();
         delta.sq_mag() <= radius * radius
     }
-- 
2.43.0


From ff6eb526db70c42ed00685fcb586535c417b2d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:21 +0000
Subject: [PATCH 13/15] fix: insert panicked on an inner node left without
 children by a panic

A panic of user code while an entry is removed can leave an inner node without
children. Later inserts that reached the node unwrapped None.
---
 src/node.rs | 52 +++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 51 insertions(+), 1 deletion(-)

diff --git a/src/node.rs b/src/node.rs
index 7b7b610..8e0623d 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -204,6 +204,51 @@ impl Alloc {
         }
     }
 
+    /// Creates a node of the given level that contains only the given entry.
+    fn new_branch<B, Key, Value>(
+        &self,
+        entry: NodeEntry<B, Key, Value>,
+        level: usize,
+    ) -> NodeContainer<B, Key, Value>
+    where
+        B: Bounds + Clone,
+        Key: Bounded<B>,
+    {
+        let bounds = entry.bounds();
+        let mut node = match entry {
+            NodeEntry::Inner(node) => node,
+            NodeEntry::Leaf(entry) => {
+                let mut node = self.new_leaf();
+                match node.borrow_mut().children_mut() {
+                    NodeChildrenRefMut::Leaf(mut children) => children.push(entry),
+                    NodeChildrenRefMut::Inner(_) => unreachable!(),
+                }
+                node.node.bounds = bounds.clone();
+                node
+            }
+        };
+        while node.level < level {
+            let mut children = self.children.new_vec();
+            let parent_level = node.level + 1;
+            let parent_bounds = bounds.clone();
+            children.push(node.leak());
+            // SAFETY: The only child is a node of the level below, which is
+            // allocated by the same Alloc.
+            node = unsafe {
+                self.wrap(
+                    Node::new(
+                        parent_bounds,
+                        NodeChildren {
+                            inner: ManuallyDrop::new(children.leak()),
+                        },
+                    ),
+                    parent_level,
+                )
+            };
+        }
+        node
+    }
+
     /// Wraps a node with a provided level in a safe container that takes
     /// ownership of the node. The provided node must have been allocated by the
     /// same Alloc and must not have been dropped.
@@ -421,7 +466,12 @@ where
                     unreachable!()
                 }
             };
-            let mut insert_child = selector.select(children.iter_mut(), &entry_bounds).unwrap();
+            let Some(mut insert_child) = selector.select(children.iter_mut(), &entry_bounds) else {
+                // The node has lost all of its children to a panic of user code
+                // during a removal.
+                let child = self.alloc.new_branch(entry, self.level - 1);
+                return self.self_insert(splitter, NodeEntry::Inner(child));
+            };
             if let Some(new_child) = insert_child.insert(selector, splitter, entry) {
                 // The child node split, so the entries in new_child are no longer part of self
                 // Recompute the bounds of self before trying to insert new_child into self
-- 
2.43.0


From a7e549a91d1d9d7b53922c130b6cc7e3655771ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:06 +0000
Subject: [PATCH 14/15] fix: volumes beyond the range of f64 made insert panic

---
 src/bounds.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bounds.rs b/src/bounds.rs
index 86058c4..f62f3ea 100644
--- a/src/bounds.rs
+++ b/src/bounds.rs
@@ -138,10 +138,13 @@ where
             panic!("Cannot calculate volume of bounds with D = 0")
         }
 
+        // Differences of volumes are compared, and the difference of two
+        // infinite volumes is not a number.
+        let finite = |value: f64| n64(value.clamp(f64::MIN, f64::MAX));
         self.min
             .zip(&self.max)
-            .map(|(min, max)| n64(max.clone().into() - min.clone().into()))
-            .reduce(|acc, length| acc * length)
+            .map(|(min, max)| finite(max.clone().into() - min.clone().into()))
+            .reduce(|acc, length| finite(acc.raw() * length.raw()))
             .unwrap()
     }
 }
-- 
2.43.0


From c6b3f0ff5edfeb8a96d6b79dad33bb44b52c670f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:08 +0000
Subject: [PATCH 15/15] fix: a root that could not hold two children was
 dropped twice

With max_children of one the vector of the new root is full before the second
child is added. The panic left the former root node both in place and in the
vector.
---
 src/fc_vec.rs | 5 +++++
 src/node.rs   | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/fc_vec.rs b/src/fc_vec.rs
index eded8ca..bbaba3a 100644
--- a/src/fc_vec.rs
+++ b/src/fc_vec.rs
@@ -168,6 +168,11 @@ impl Alloc {
         }
     }
 
+    /// Returns the capacity specified by this [Alloc].
+    pub(crate) fn capacity(&self) -> usize {
+        self.cap
+    }
+
     /// Returns a copy of the referenced FCVec in a new FCVecContainer.
     pub(crate) unsafe fn clone<T>(&self, vec: &[T]) -> FCVecContainer<T>
     where
diff --git a/src/node.rs b/src/node.rs
index 8e0623d..a41a944 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -861,6 +861,11 @@ impl<B, Key, Value> NodeContainer<B, Key, Value> {
     where
         B: Bounds,
     {
+        // The new root node gets two children. Failing to add them halfway would
+        // leave the former root node owned twice.
+        if self.alloc.children.capacity() < 2 {
+            panic!("cannot branch with a capacity of less than two children")
+        }
         if sibling.level != self.level {
             panic!(
                 "cannot branch with sibling of level {} when root node has level {}",
-- 
2.43.0

