From 1db074ad28b24befff41398e0257e5a59176d3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:58 +0000
Subject: [PATCH 01/26] fix: VecOption::clone produced a collection of length 0

The clone copied the elements and the presence bitmap but never set the
length of the new vector, so the clone reported len() == 0 while its bitmap
still had all entries: the clone compared unequal to its original, and
pushing to or popping from it panicked or touched uninitialized memory.
---
 trellis/src/vec_option.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trellis/src/vec_option.rs b/trellis/src/vec_option.rs
index 24dccf7..50ed993 100644
--- a/trellis/src/vec_option.rs
+++ b/trellis/src/vec_option.rs
@@ -49,6 +49,9 @@ impl<T: Clone> Clone for VecOption<T> {
                 }
             }
         }
+        unsafe {
+            clone_vec.set_len(clone_capacity);
+        }
         Self {
             vec: clone_vec,
             present: self.present.clone(),
-- 
2.43.0


From 9a348b6903e5c01d2ea613780a1988f8ec7c66e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:58 +0000
Subject: [PATCH 02/26] fix: VecOption dropped items twice if an item's
 destructor panicked

If the destructor of one item panicked, the inner Vec was still dropped with
its full length, which ran the destructors of uninitialized and of already
dropped items. Clear the length before dropping the items.
---
 trellis/src/vec_option.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/trellis/src/vec_option.rs b/trellis/src/vec_option.rs
index 50ed993..cfe21d0 100644
--- a/trellis/src/vec_option.rs
+++ b/trellis/src/vec_option.rs
@@ -754,6 +754,11 @@ impl<'a, T> Iterator for IterRunsMut<'a, T> {
 
 impl<T> Drop for VecOption<T> {
     fn drop(&mut self) {
+        // The length is cleared first, so that `vec` never drops any items itself,
+        // even if the destructor of an item panics.
+        unsafe {
+            self.vec.set_len(0);
+        }
         if core::mem::needs_drop::<T>() {
             for (i, value) in self.present.iter().enumerate() {
                 if value {
@@ -763,9 +768,6 @@ impl<T> Drop for VecOption<T> {
                 }
             }
         }
-        unsafe {
-            self.vec.set_len(0);
-        }
     }
 }
 
-- 
2.43.0


From 1e68c9959ff15d32c14e9ab1c3622c5425765d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:36 +0000
Subject: [PATCH 03/26] fix: PQ::remove broke the heap order

Sifting down always preferred the left child, even if the right child was
greater, which violated the heap order (and tripped the internal check) for
ordinary inputs, such as the items 10, 5, 9, 1.
---
 trellis/src/priority_queue.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/trellis/src/priority_queue.rs b/trellis/src/priority_queue.rs
index 1f4813c..62c64c7 100644
--- a/trellis/src/priority_queue.rs
+++ b/trellis/src/priority_queue.rs
@@ -62,13 +62,15 @@ impl<T: Ord> PQ<T> {
         let result = self.pq.pop();
         let mut i: usize = 0;
         loop {
+            // The item must trade places with the greater of its two children.
             let left = left(i);
-            if left < self.pq.len() && self.pq[i] < self.pq[left] {
+            let right = right(i);
+            let right_is_greater = right < self.pq.len() && self.pq[left] < self.pq[right];
+            if left < self.pq.len() && self.pq[i] < self.pq[left] && !right_is_greater {
                 self.pq.swap(i, left);
                 i = left;
                 continue;
             }
-            let right = right(i);
             if right < self.pq.len() && self.pq[i] < self.pq[right] {
                 self.pq.swap(i, right);
                 i = right;
-- 
2.43.0


From 525223894907e9484e87e753b44400316c340e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:37 +0000
Subject: [PATCH 04/26] fix: find_disjoint_subgraphs could split a connected
 subgraph

When a possible subgraph was linked to a second one after it had already been
linked to a first one, the first link was overwritten, and the vertices that
were connected only by it ended up in different subgraphs. Link the leaders
of the two groups instead.
---
 trellis/src/disjoint.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/trellis/src/disjoint.rs b/trellis/src/disjoint.rs
index 043dc4d..74244b8 100644
--- a/trellis/src/disjoint.rs
+++ b/trellis/src/disjoint.rs
@@ -6,6 +6,19 @@ use log::debug;
 
 const NO_GRAPH: u32 = !0u32;
 
+/// Follows the links in `graph_alias`, starting at `g`, until it reaches the graph that leads
+/// its group, i.e. one whose link points to itself.
+fn find_leader(graph_alias: &mut [u32], g: u32) -> u32 {
+    let mut leader = g;
+    while graph_alias[leader as usize] != leader {
+        // Shorten the chain of links, so that later searches are fast.
+        let next = graph_alias[leader as usize];
+        graph_alias[leader as usize] = graph_alias[next as usize];
+        leader = next;
+    }
+    leader
+}
+
 pub fn find_disjoint_subgraphs(graph: &Graph) -> DisjointSubgraphs {
     // First we traverse all edges of the graph and create the graph_alias and v_graph tables.
     // This creates a set of "possible subgraphs". After this step, v_graph will contain one
@@ -61,8 +74,12 @@ pub fn find_disjoint_subgraphs(graph: &Graph) -> DisjointSubgraphs {
                     // It might not be the only connection, of course. Remember the connection
                     // by editing graph_alias[] so that both g_low and g_high "point" to one
                     // of the graphs. By convention, we make the higher one point to the lower.
-                    let g_low = g_from.min(g_to);
-                    let g_high = g_from.max(g_to);
+                    // The edit is made to the leaders, so that links which were recorded earlier
+                    // are not lost.
+                    let leader_from = find_leader(&mut graph_alias, g_from);
+                    let leader_to = find_leader(&mut graph_alias, g_to);
+                    let g_low = leader_from.min(leader_to);
+                    let g_high = leader_from.max(leader_to);
                     graph_alias[g_high as usize] = g_low;
                     debug!("v{from} (in g{g_from}) --> v{to} (in g{g_to}), in different graphs. assigning g{g_high} --> g{g_low}", from=from, to=to, g_from=g_from, g_to=g_to, g_high=g_high, g_low=g_low);
                 }
-- 
2.43.0


From c143f0a87b27518f8a72f6d853b399b8c57629c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:13 +0000
Subject: [PATCH 05/26] fix: find_shortest_path returned a wrong path or
 panicked if from_vert != 0

The loop that collects the path compared the index of a path entry with the
number of the starting vertex. The first entry always has index 0, so for any
other starting vertex the path was cut short, or the loop ran past the first
entry and panicked.
---
 trellis/src/ortho/shortest_path.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trellis/src/ortho/shortest_path.rs b/trellis/src/ortho/shortest_path.rs
index a634510..b553e2d 100644
--- a/trellis/src/ortho/shortest_path.rs
+++ b/trellis/src/ortho/shortest_path.rs
@@ -153,10 +153,11 @@ pub fn find_shortest_path<Edges, EdgeIterator>(
         let mut pi = best.path;
         loop {
             path_verts.push(state.paths[pi as usize].vert);
-            if pi == from_vert as i32 {
+            pi = state.paths[pi as usize].prev_path;
+            if pi < 0 {
+                // That was the initial item, which is at from_vert.
                 break;
             }
-            pi = state.paths[pi as usize].prev_path;
         }
         Some(path_verts)
     } else {
-- 
2.43.0


From bf8eea8af224ef3456c4df2e1c59f669b081867c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:14 +0000
Subject: [PATCH 06/26] fix: find_shortest_path never returned if the graph has
 a cycle

The search followed every path, so it went around any cycle that can be
reached from the starting vertex forever. Follow a path only if it is better
than the paths which have already reached the same vertex.
---
 trellis/src/ortho/shortest_path.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/trellis/src/ortho/shortest_path.rs b/trellis/src/ortho/shortest_path.rs
index b553e2d..ba06f5d 100644
--- a/trellis/src/ortho/shortest_path.rs
+++ b/trellis/src/ortho/shortest_path.rs
@@ -1,3 +1,4 @@
+use std::collections::HashMap;
 
 type Weight = i32;
 
@@ -115,6 +116,10 @@ pub fn find_shortest_path<Edges, EdgeIterator>(
 
     let mut best_path: Option<BestPath> = None;
 
+    // The least weight of any path found so far, for each vertex that has been reached.
+    let mut best_weights: HashMap<V, Weight> = HashMap::new();
+    best_weights.insert(from_vert, 0);
+
     loop {
         // iterate on search
         // the entry at pq[0] is the shortest path
@@ -138,6 +143,14 @@ pub fn find_shortest_path<Edges, EdgeIterator>(
             for (next_vert_index, edge_weight) in edges(current_vert) {
                 let next_path_index = state.paths.len();
                 let next_path_weight = current_path.weight + edge_weight;
+                // A path is worth following only if it is better than all of the paths that have
+                // already reached the same vertex. Otherwise, the search would not end if the
+                // graph has a cycle.
+                match best_weights.get(&next_vert_index) {
+                    Some(&best_weight) if best_weight <= next_path_weight => continue,
+                    _ => (),
+                }
+                best_weights.insert(next_vert_index, next_path_weight);
                 state.paths.push(Path {
                     vert: next_vert_index as i32,
                     // weight: next_path_weight,
-- 
2.43.0


From 4735fac58f66d1c69c1bfbe892b29d51a4222b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:28 +0000
Subject: [PATCH 07/26] fix: Pobsopen panicked for every non-empty set of
 obstacles

The loop over the earlier vertices started at i - 1 or i - 2, which underflows
for the first vertices.
---
 trellis/src/pathplan/visibility.rs | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/trellis/src/pathplan/visibility.rs b/trellis/src/pathplan/visibility.rs
index 23a20e7..d66b71c 100644
--- a/trellis/src/pathplan/visibility.rs
+++ b/trellis/src/pathplan/visibility.rs
@@ -257,13 +257,8 @@ fn compVis(conf: &mut vconfig_t, start: usize) {
         wadj[(previ as usize, i)] = d;
 
         /* Check remaining, earlier vertices */
-        let mut j;
-        if previ == i as i32 - 1 {
-            j = i - 2;
-        } else {
-            j = i - 1;
-        }
-        loop {
+        let j_end = if previ == i as i32 - 1 { i - 1 } else { i };
+        for j in (0..j_end).rev() {
             if inCone(i, j, pts, nextPt, prevPt)
                 && inCone(j, i, pts, nextPt, prevPt)
                 && clear(pts[i], pts[j], V, V, V, pts, nextPt, prevPt)
@@ -273,11 +268,6 @@ fn compVis(conf: &mut vconfig_t, start: usize) {
                 wadj[(i, j)] = d;
                 wadj[(j, i)] = d;
             }
-
-            if j == 0 {
-                break;
-            }
-            j -= 1;
         }
     }
 }
-- 
2.43.0


From c8636922d7c55c9a5ef388cddfb0da767ee28d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:36 +0000
Subject: [PATCH 08/26] fix: Pshortestpath panicked for every input

copy_from_slice() was used on an empty vector, and the deque was reserved but
never filled, so that computing its initial position underflowed.
---
 trellis/src/pathplan/shortest.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trellis/src/pathplan/shortest.rs b/trellis/src/pathplan/shortest.rs
index 57c4f1c..4301f7c 100644
--- a/trellis/src/pathplan/shortest.rs
+++ b/trellis/src/pathplan/shortest.rs
@@ -61,7 +61,7 @@ pub enum ShortestPathError {
  */
 pub fn Pshortestpath(polyp: &Ppoly_t, eps: &[Ppoint_t]) -> Result<Ppolyline_t, ShortestPathError> {
     let mut ps_vec: Vec<Ppoint_t> = Vec::with_capacity(polyp.ps.len() + 2);
-    ps_vec.copy_from_slice(&polyp.ps);
+    ps_vec.extend_from_slice(&polyp.ps);
 
     let mut pnls: Vec<pointnlink_t> = Vec::new();
     // pnlps contains indices into pnls
@@ -70,7 +70,7 @@ pub fn Pshortestpath(polyp: &Ppoly_t, eps: &[Ppoint_t]) -> Result<Ppolyline_t, S
     pnlps.reserve(polyp.ps.len());
 
     let mut dq = deque_t::default();
-    dq.pnlps.reserve(polyp.ps.len() * 2);
+    dq.pnlps.resize(polyp.ps.len() * 2, NULL_PNLS);
     dq.fpnlpi = dq.pnlps.len() / 2;
     dq.lpnlpi = dq.fpnlpi - 1;
 
-- 
2.43.0


From 3cdcc6de64e3a4c798f09e868931cf5522220d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:04 +0000
Subject: [PATCH 09/26] fix: RampTable::iter_pairs_manual reported wrong keys

Every key was too high by 2, and the iterator panicked if the table had
unowned values. Now it yields the same pairs as iter_pairs.
---
 trellis/src/ramp_table.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/trellis/src/ramp_table.rs b/trellis/src/ramp_table.rs
index 9d0f3a5..82ab8d5 100644
--- a/trellis/src/ramp_table.rs
+++ b/trellis/src/ramp_table.rs
@@ -200,15 +200,16 @@ impl<T> RampTable<T> {
             fn next(&mut self) -> Option<Self::Item> {
                 if let Some(value) = self.value_iter.next() {
                     // What key is this value for?
+                    // If there are no more keys, then the value is not owned by any key.
                     while self.num_values == 0 {
-                        let next_index = *self.index_iter.next().unwrap() as usize;
+                        let next_index = *self.index_iter.next()? as usize;
                         self.num_values = next_index - self.current_index;
                         self.current_index = next_index;
                         self.current_key += 1;
                     }
-                    // TODO: current_key is not correct yet
+                    // current_key is the next key to visit
                     self.num_values -= 1;
-                    Some((self.current_key, value))
+                    Some((self.current_key - 1, value))
                 } else {
                     None
                 }
@@ -217,7 +218,7 @@ impl<T> RampTable<T> {
 
         Pairs {
             value_iter: self.values.iter(),
-            index_iter: self.index.iter(),
+            index_iter: self.index[1..].iter(),
             current_key: 0,
             current_index: 0,
             num_values: 0,
-- 
2.43.0


From 5e8ef6c687dd390f663c7aba2fd9d66b33f39e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:39 +0000
Subject: [PATCH 10/26] fix: create_proper_graph panicked for every input

It computed the edges of the proper graph, but then reached unimplemented!(),
or an assertion in a helper which assumed that the edges were sorted by their
starting vertex. Build the graph that the documentation describes.
---
 trellis/src/layering.rs | 53 ++++++++++-------------------------------
 1 file changed, 13 insertions(+), 40 deletions(-)

diff --git a/trellis/src/layering.rs b/trellis/src/layering.rs
index 0032ae4..0032e9a 100644
--- a/trellis/src/layering.rs
+++ b/trellis/src/layering.rs
@@ -1,5 +1,6 @@
 use crate::error::Error;
 use crate::graph::Graph;
+use crate::ramp_table::RampTableBuilder;
 
 #[derive(Clone, Debug, Eq, PartialEq)]
 pub struct LayerMap {
@@ -145,50 +146,22 @@ pub fn create_proper_graph(graph: &Graph, layers: &LayerMap) -> Graph {
         add_edge(prev_v, to);
     }
 
-    // Because of the iteration order, we know that values in 'proper_form'
-    // are in non-decreasing order. Next, we transform that into an index
-    // table for a RampTable.
+    // The edges that leave the virtual vertices are mixed with the edges that leave the
+    // original vertices, so the values in 'proper_from' are not sorted.
 
-    let nv_proper = next_virt_v;
+    let nv_proper = next_virt_v as usize;
 
-    let index = convert_runs_to_index(proper_from.iter().copied(), nv_proper as usize);
-
-    unimplemented!();
-}
-
-/*
-#[test]
-fn convert_runs_to_index_test() {
-    fn case(input: &[u32], len: usize, expected: &[u32]) {
-        let actual = convert_runs_to_index(input.iter().copied(), len);
-        assert_eq!(
-            actual.as_slice(),
-            expected,
-            "len: {} input: {:?}",
-            len,
-            input
-        );
+    let mut builder: RampTableBuilder<u32> =
+        RampTableBuilder::with_capacity(expected_num_edge_proper);
+    builder.extend(proper_from.into_iter().zip(proper_to));
+    let mut edges = builder.finish();
+    while edges.len() < nv_proper {
+        edges.finish_key();
     }
 
-    case(&[0, 0, 1, 4, 7, 7], 10, &[0, 2]);
-}
-*/
-
-fn convert_runs_to_index(iter: impl Iterator<Item = u32>, len: usize) -> Vec<u32> {
-    let mut index: Vec<u32> = Vec::with_capacity(len + 1);
-    index.push(0);
-    let mut base: u32 = 0;
-    for key in iter {
-        assert!((key as usize) < len);
-        while index.len() <= key as usize {
-            index.push(base);
-        }
-        base += 1;
-    }
-    while index.len() < len {
-        index.push(base);
-    }
-    index
+    assert_eq!(edges.len(), expected_num_vert_proper);
+    assert_eq!(edges.num_values(), expected_num_edge_proper);
+    Graph { edges }
 }
 
 // Idea for language: Si# or Si++
-- 
2.43.0


From 00442d200b71648d9f93d9716563ca331e6e1ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:05 +0000
Subject: [PATCH 11/26] hooks: reach the triangulation from the verification
 harness (cfg verif_hooks)

---
 trellis/src/pathplan/triang.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/trellis/src/pathplan/triang.rs b/trellis/src/pathplan/triang.rs
index f094f3b..5b2ae57 100644
--- a/trellis/src/pathplan/triang.rs
+++ b/trellis/src/pathplan/triang.rs
@@ -137,3 +137,15 @@ fn dpd_between(pa: Ppoint_t, pb: Ppoint_t, pc: Ppoint_t) -> bool {
             && (pca.x * pca.x + pca.y * pca.y <= pba.x * pba.x + pba.y * pba.y)
     }
 }
+
+/// Access for the verification harness only (built with `--cfg verif_hooks`).
+#[cfg(verif_hooks)]
+pub mod verif_hooks {
+    use super::*;
+    pub fn triangulate<F: FnMut(Ppoint_t, Ppoint_t, Ppoint_t)>(
+        polygon: &Ppoly_t,
+        output: &mut F,
+    ) -> Result<(), ()> {
+        Ptriangulate(polygon, output)
+    }
+}
-- 
2.43.0


From aff7fdd3f83cfd52531fee5f091fe71353d99c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:05 +0000
Subject: [PATCH 12/26] hooks: reach the colour conversions from the
 verification harness (cfg verif_hooks)

---
 trellis/src/common/colxlate.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/trellis/src/common/colxlate.rs b/trellis/src/common/colxlate.rs
index 6cf0ee3..408457e 100644
--- a/trellis/src/common/colxlate.rs
+++ b/trellis/src/common/colxlate.rs
@@ -98,6 +98,23 @@ fn rgb2cmyk(r: f64, g: f64, b: f64) -> Cmyk<f64> {
     }
 }
 
+/// Access for the verification harness only (built with `--cfg verif_hooks`).
+#[cfg(verif_hooks)]
+pub mod verif_hooks {
+    pub fn hsv2rgb(h: f64, s: f64, v: f64) -> (f64, f64, f64) {
+        let c = super::hsv2rgb(h, s, v);
+        (c.r, c.g, c.b)
+    }
+    pub fn rgb2hsv(r: f64, g: f64, b: f64) -> (f64, f64, f64) {
+        let c = super::rgb2hsv(r, g, b);
+        (c.h, c.s, c.v)
+    }
+    pub fn rgb2cmyk(r: f64, g: f64, b: f64) -> (f64, f64, f64, f64) {
+        let c = super::rgb2cmyk(r, g, b);
+        (c.c, c.m, c.y, c.k)
+    }
+}
+
 /*
 
 static int colorcmpf(const void *p0, const void *p1)
-- 
2.43.0


From c2482334a5d4d2b76ca592e9f0647a012b645156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:05 +0000
Subject: [PATCH 13/26] hooks: reach the run iterators from the verification
 harness (cfg verif_hooks)

---
 trellis/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/trellis/src/lib.rs b/trellis/src/lib.rs
index 1386f60..ae27393 100644
--- a/trellis/src/lib.rs
+++ b/trellis/src/lib.rs
@@ -28,6 +28,12 @@ pub mod vec_option;
 
 mod iters;
 
+/// Access for the verification harness only (built with `--cfg verif_hooks`).
+#[cfg(verif_hooks)]
+pub mod verif_hooks {
+    pub use crate::iters::{iter_runs, iter_runs_by_key};
+}
+
 pub mod testing;
 
 
-- 
2.43.0


From b1593690c60b5812f7e3084c8002162f9764c616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:18 +0000
Subject: [PATCH 14/26] fix: VecOption::drain accepted ranges whose end bound
 overflows

---
 trellis/src/vec_option.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trellis/src/vec_option.rs b/trellis/src/vec_option.rs
index cfe21d0..81397f6 100644
--- a/trellis/src/vec_option.rs
+++ b/trellis/src/vec_option.rs
@@ -241,11 +241,11 @@ impl<T> VecOption<T> {
         let start = match range.start_bound() {
             std::ops::Bound::Unbounded => 0,
             std::ops::Bound::Included(&start) => start,
-            std::ops::Bound::Excluded(&start) => start + 1,
+            std::ops::Bound::Excluded(&start) => start.checked_add(1).expect("range start is out of bounds"),
         };
         let end = match range.end_bound() {
             std::ops::Bound::Unbounded => self.len(),
-            std::ops::Bound::Included(&end) => end + 1,
+            std::ops::Bound::Included(&end) => end.checked_add(1).expect("range end is out of bounds"),
             std::ops::Bound::Excluded(&end) => end,
         };
         assert!(start <= end);
-- 
2.43.0


From 176bad400ef9bdc127b1b4eca497a4dae6bb03de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:52 +0000
Subject: [PATCH 15/26] fix: Pshortestpath misjudged the orientation when the
 leftmost point is in the middle of an edge

---
 trellis/src/pathplan/shortest.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/trellis/src/pathplan/shortest.rs b/trellis/src/pathplan/shortest.rs
index 4301f7c..9489838 100644
--- a/trellis/src/pathplan/shortest.rs
+++ b/trellis/src/pathplan/shortest.rs
@@ -96,7 +96,14 @@ pub fn Pshortestpath(polyp: &Ppoly_t, eps: &[Ppoint_t]) -> Result<Ppolyline_t, S
         } else {
             minpi + 1
         }];
-        if (p1.x == p2.x && p2.x == p3.x) && (p3.y > p2.y) || ccw(p1, p2, p3) != ISCCW {
+        // If the leftmost point is in the middle of a vertical edge, then ccw() cannot tell the
+        // orientation, but the direction of that edge can.
+        let is_clockwise = if p1.x == p2.x && p2.x == p3.x {
+            p3.y > p2.y
+        } else {
+            ccw(p1, p2, p3) != ISCCW
+        };
+        if is_clockwise {
             for pi in (0..polyp.ps.len()).rev() {
                 if pi < polyp.ps.len() - 1 && polyp.ps[pi] == polyp.ps[pi + 1] {
                     continue;
-- 
2.43.0


From bf2a031f53cd44c7f260454d012aab30c8f51999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:53 +0000
Subject: [PATCH 16/26] fix: initEllipse took angles more than a turn apart for
 a whole extra turn

---
 trellis/src/common/ellipse.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/trellis/src/common/ellipse.rs b/trellis/src/common/ellipse.rs
index c4847a1..980455e 100644
--- a/trellis/src/common/ellipse.rs
+++ b/trellis/src/common/ellipse.rs
@@ -235,7 +235,11 @@ fn initEllipse(
 
     // the preceding correction fails if we have exactly eta2 - eta1 = 2*PI
     // it reduces the interval to zero length
-    if (lambda2 - lambda1 > PI) && (ep.eta2 - ep.eta1 < PI) {
+    let turns = ((lambda2 - lambda1) / TWOPI).round();
+    if turns >= 1.0
+        && (lambda2 - lambda1 - turns * TWOPI).abs() < 1e-9
+        && (ep.eta2 - ep.eta1 < PI)
+    {
         ep.eta2 += TWOPI;
     }
 
-- 
2.43.0


From feb1432c8209fe5ac32174daa4a84e935a0f4f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:00 +0000
Subject: [PATCH 17/26] fix: ROUND moved the numbers just below one half away
 from the nearest integer

---
 trellis/src/common/arith.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/trellis/src/common/arith.rs b/trellis/src/common/arith.rs
index c72dffd..c098237 100644
--- a/trellis/src/common/arith.rs
+++ b/trellis/src/common/arith.rs
@@ -42,11 +42,7 @@ pub const M_PI: f64 = core::f64::consts::PI;
 pub const SQRT2: f64 = core::f64::consts::SQRT_2;
 
 pub fn ROUND(f: f64) -> i32 {
-    if f >= 0.0 {
-        (f + 0.5) as i32
-    } else {
-        (f - 0.5) as i32
-    }
+    f.round() as i32
 }
 pub fn RADIANS(deg: f64) -> f64 {
     deg / 180.0 * M_PI
-- 
2.43.0


From b7c37719658373a7b1776f63b255f49dfb500eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:46 +0000
Subject: [PATCH 18/26] fix: find shortest paths whose length exceeds the range
 of an i32

---
 trellis/src/pathplan/shortestpth.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trellis/src/pathplan/shortestpth.rs b/trellis/src/pathplan/shortestpth.rs
index cf004b8..1915c6a 100644
--- a/trellis/src/pathplan/shortestpth.rs
+++ b/trellis/src/pathplan/shortestpth.rs
@@ -4,7 +4,7 @@ use super::visibility::directVis;
 use super::*;
 use crate::vec2::Ppoint_t;
 
-const UNSEEN: COORD = core::i32::MAX as f64;
+const UNSEEN: COORD = core::f64::MAX;
 
 /* shortestPath:
  * Given a VxV weighted adjacency matrix, compute the shortest
@@ -30,7 +30,7 @@ pub fn shortestPathGeneric<Wadj: Fn(usize, usize) -> f64>(
     /* initialize arrays */
     let mut dad: Vec<i32> = vec![-1; V];
     let mut vl: Vec<COORD> = vec![-UNSEEN; V + 1]; /* One extra for sentinel, which is at index 0 */
-    vl[0] = -(UNSEEN + 1.0); /* Set sentinel */
+    vl[0] = core::f64::NEG_INFINITY; /* Set sentinel */
     const val: usize = 1; // an offset into vl; rewrite val[x] as vl[val + x]
 
     let mut min = root;
-- 
2.43.0


From 9429006a1aa5cc79b38fcadf2a052c3fd147726d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:48 +0000
Subject: [PATCH 19/26] hooks: each can be left out by itself (cfg
 verif_no_iters, verif_no_colour, verif_no_triang)

---
 trellis/src/common/colxlate.rs | 2 +-
 trellis/src/lib.rs             | 2 +-
 trellis/src/pathplan/triang.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/trellis/src/common/colxlate.rs b/trellis/src/common/colxlate.rs
index 408457e..56ae8dd 100644
--- a/trellis/src/common/colxlate.rs
+++ b/trellis/src/common/colxlate.rs
@@ -99,7 +99,7 @@ fn rgb2cmyk(r: f64, g: f64, b: f64) -> Cmyk<f64> {
 }
 
 /// Access for the verification harness only (built with `--cfg verif_hooks`).
-#[cfg(verif_hooks)]
+#[cfg(all(verif_hooks, not(verif_no_colour)))]
 pub mod verif_hooks {
     pub fn hsv2rgb(h: f64, s: f64, v: f64) -> (f64, f64, f64) {
         let c = super::hsv2rgb(h, s, v);
diff --git a/trellis/src/lib.rs b/trellis/src/lib.rs
index ae27393..586f18b 100644
--- a/trellis/src/lib.rs
+++ b/trellis/src/lib.rs
@@ -29,7 +29,7 @@ pub mod vec_option;
 mod iters;
 
 /// Access for the verification harness only (built with `--cfg verif_hooks`).
-#[cfg(verif_hooks)]
+#[cfg(all(verif_hooks, not(verif_no_iters)))]
 pub mod verif_hooks {
     pub use crate::iters::{iter_runs, iter_runs_by_key};
 }
diff --git a/trellis/src/pathplan/triang.rs b/trellis/src/pathplan/triang.rs
index 5b2ae57..b35ea81 100644
--- a/trellis/src/pathplan/triang.rs
+++ b/trellis/src/pathplan/triang.rs
@@ -139,7 +139,7 @@ fn dpd_between(pa: Ppoint_t, pb: Ppoint_t, pc: Ppoint_t) -> bool {
 }
 
 /// Access for the verification harness only (built with `--cfg verif_hooks`).
-#[cfg(verif_hooks)]
+#[cfg(all(verif_hooks, not(verif_no_triang)))]
 pub mod verif_hooks {
     use super::*;
     pub fn triangulate<F: FnMut(Ppoint_t, Ppoint_t, Ppoint_t)>(
-- 
2.43.0


From 9cd71412a84dc00a6fac232a1f4c79e73a4e51cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:24 +0000
Subject: [PATCH 20/26] fix: find where a spline meets a line that is steep but
 not quite vertical

---
 trellis/src/pathplan/route.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/trellis/src/pathplan/route.rs b/trellis/src/pathplan/route.rs
index c124ad4..72f8458 100644
--- a/trellis/src/pathplan/route.rs
+++ b/trellis/src/pathplan/route.rs
@@ -355,7 +355,8 @@ fn splineintersectsline(sps: &[Ppoint_t], lps: &[Ppoint_t], roots: &mut [f64]) -
     let xcoeff = [lps[0].x, lps[1].x - lps[0].x];
     let ycoeff = [lps[0].y, lps[1].y - lps[0].y];
     let mut rootn: usize = 0;
-    if xcoeff[1] == 0.0 {
+    /* divide by the greater of the two, so that steep lines are as exact as flat ones */
+    if xcoeff[1].abs() <= ycoeff[1].abs() {
         if ycoeff[1] == 0.0 {
             let mut scoeff = points2coeff(sps[0].x, sps[1].x, sps[2].x, sps[3].x);
             scoeff[0] -= xcoeff[0];
@@ -388,8 +389,14 @@ fn splineintersectsline(sps: &[Ppoint_t], lps: &[Ppoint_t], roots: &mut [f64]) -
             }
             return rootn;
         } else {
-            let mut scoeff = points2coeff(sps[0].x, sps[1].x, sps[2].x, sps[3].x);
-            scoeff[0] -= xcoeff[0];
+            let rat = xcoeff[1] / ycoeff[1];
+            let mut scoeff = points2coeff(
+                sps[0].x - rat * sps[0].y,
+                sps[1].x - rat * sps[1].y,
+                sps[2].x - rat * sps[2].y,
+                sps[3].x - rat * sps[3].y,
+            );
+            scoeff[0] += rat * ycoeff[0] - xcoeff[0];
             let (xrootn, xroots) = solve3(&scoeff);
             if xrootn == 4 {
                 return 4;
-- 
2.43.0


From a69c428ba57ad599cab0cc64c39f6d86bc77283d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:55 +0000
Subject: [PATCH 21/26] fix: find_disjoint_subgraphs printed its result to
 standard output

---
 trellis/src/disjoint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trellis/src/disjoint.rs b/trellis/src/disjoint.rs
index 74244b8..51917ee 100644
--- a/trellis/src/disjoint.rs
+++ b/trellis/src/disjoint.rs
@@ -193,7 +193,7 @@ pub fn find_disjoint_subgraphs(graph: &Graph) -> DisjointSubgraphs {
         values: output_values,
     };
 
-    println!("Disjoint subgraphs: {:#?}", subgraphs);
+    debug!("Disjoint subgraphs: {:#?}", subgraphs);
 
     DisjointSubgraphs { subgraphs }
 }
-- 
2.43.0


From 6fb63d3d076f6dfdbfdf2622198c3e61890a4b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:56 +0000
Subject: [PATCH 22/26] fix: every curve piece of Proutespline has to be no
 shorter than the route, not only the first tried

---
 trellis/src/pathplan/route.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/trellis/src/pathplan/route.rs b/trellis/src/pathplan/route.rs
index 72f8458..4ebbb82 100644
--- a/trellis/src/pathplan/route.rs
+++ b/trellis/src/pathplan/route.rs
@@ -268,7 +268,6 @@ fn splinefits(
     vb: Pvector_t,
     inps: &[Ppoint_t],
 ) -> bool {
-    let mut first = true;
     let forceflag = inps.len() == 2;
 
     /*#if 0
@@ -290,10 +289,9 @@ fn splinefits(
          * constraint polygon, or computing the candidate spline more carefully,
          * for example using the path. SCN */
 
-        if first && (dist_n(&sps[..]) < (dist_n(inps) - EPSILON1)) {
+        if !forceflag && dist_n(&sps[..]) < (dist_n(inps) - EPSILON1) {
             return false;
         }
-        first = false;
 
         if splineisinside(edges, &sps[..]) {
             for pi in 1..4 {
-- 
2.43.0


From cd62eccdaebca5065e533d0f2f7df76172fcdb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:22 +0000
Subject: [PATCH 23/26] fix: Pshortestpath misjudged the orientation of a
 polygon whose leftmost corner is given several times

---
 trellis/src/pathplan/shortest.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/trellis/src/pathplan/shortest.rs b/trellis/src/pathplan/shortest.rs
index 9489838..ec62a45 100644
--- a/trellis/src/pathplan/shortest.rs
+++ b/trellis/src/pathplan/shortest.rs
@@ -85,17 +85,13 @@ pub fn Pshortestpath(polyp: &Ppoly_t, eps: &[Ppoint_t]) -> Result<Ppolyline_t, S
             }
         }
 
+        // The neighbours that matter are the nearest ones at other places, because a point can be
+        // given several times in a row.
+        let pn = polyp.ps.len();
         let p2 = polyp.ps[minpi];
-        let p1 = polyp.ps[if minpi == 0 {
-            polyp.ps.len() - 1
-        } else {
-            minpi - 1
-        }];
-        let p3 = polyp.ps[if minpi == polyp.ps.len() - 1 {
-            0
-        } else {
-            minpi + 1
-        }];
+        let other = |p: &Ppoint_t| *p != p2;
+        let p1 = (1..pn).map(|i| polyp.ps[(minpi + pn - i) % pn]).find(other).unwrap_or(p2);
+        let p3 = (1..pn).map(|i| polyp.ps[(minpi + i) % pn]).find(other).unwrap_or(p2);
         // If the leftmost point is in the middle of a vertical edge, then ccw() cannot tell the
         // orientation, but the direction of that edge can.
         let is_clockwise = if p1.x == p2.x && p2.x == p3.x {
-- 
2.43.0


From b0c3e4e8bfa4bc2c8f8d4b2409d83a2bdf2c3fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:22 +0000
Subject: [PATCH 24/26] fix: solve3 lost the roots of cubics whose leading
 coefficient is small beside the others

---
 trellis/src/pathplan/solvers.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/trellis/src/pathplan/solvers.rs b/trellis/src/pathplan/solvers.rs
index 08c33a7..b0ee948 100644
--- a/trellis/src/pathplan/solvers.rs
+++ b/trellis/src/pathplan/solvers.rs
@@ -29,7 +29,21 @@ pub fn solve3(coeff: &[f64; 4]) -> (usize, [f64; 4]) {
     let p = b_over_3a * b_over_3a;
     let q = 2.0 * b_over_3a * p - b_over_3a * c_over_a + d_over_a;
     let p = c_over_a / 3.0 - p;
-    let disc = q * q + 4.0 * p * p * p;
+    let mut disc = q * q + 4.0 * p * p * p;
+
+    // If a is small, then the two terms cancel each other almost completely. The same number can be
+    // computed from the coefficients; use that if its terms are smaller.
+    let terms = [
+        27.0 * a * a * d * d,
+        -18.0 * a * b * c * d,
+        4.0 * a * c * c * c,
+        4.0 * b * b * b * d,
+        -b * b * c * c,
+    ];
+    let scale = 27.0 * a * a * a * a;
+    if terms.iter().map(|t| t.abs()).sum::<f64>() < q * q * scale {
+        disc = terms.iter().sum::<f64>() / scale;
+    }
 
     let mut roots: [f64; 4] = [0.0, 0.0, 0.0, 0.0];
     let rootn: usize;
-- 
2.43.0


From bd06f5a9857fb7094fb52309cf3e927219710253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:22 +0000
Subject: [PATCH 25/26] fix: Proutespline panicked when a barrier of zero
 length meets a curve with repeated roots

---
 trellis/src/pathplan/route.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/trellis/src/pathplan/route.rs b/trellis/src/pathplan/route.rs
index 4ebbb82..765bdf2 100644
--- a/trellis/src/pathplan/route.rs
+++ b/trellis/src/pathplan/route.rs
@@ -378,10 +378,8 @@ fn splineintersectsline(sps: &[Ppoint_t], lps: &[Ppoint_t], roots: &mut [f64]) -
                 }
             } else {
                 for i in 0..xrootn {
-                    for j in 0..yrootn {
-                        if xroots[i] == yroots[j] {
-                            addroot(xroots[i], roots, &mut rootn);
-                        }
+                    if yroots[..yrootn].contains(&xroots[i]) {
+                        addroot(xroots[i], roots, &mut rootn);
                     }
                 }
             }
-- 
2.43.0


From 023e26a2106d897e5faf6ac9833a21f6202cb8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:33 +0000
Subject: [PATCH 26/26] fix: solve3 lost half of the digits of a single real
 root when the other two are far away

---
 trellis/src/pathplan/solvers.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/trellis/src/pathplan/solvers.rs b/trellis/src/pathplan/solvers.rs
index b0ee948..8b6aa20 100644
--- a/trellis/src/pathplan/solvers.rs
+++ b/trellis/src/pathplan/solvers.rs
@@ -57,12 +57,16 @@ pub fn solve3(coeff: &[f64; 4]) -> (usize, [f64; 4]) {
         roots[2] = temp * ((theta - PI - PI) / 3.0).cos();
         rootn = 3;
     } else {
+        // Of alpha and beta, take the one in which nothing cancels. The product of their cube roots
+        // is -p, which gives the other one.
         let alpha = 0.5 * (disc.sqrt() - q);
-        let beta = -q - alpha;
-        roots[0] = cbrt(alpha) + cbrt(beta);
+        let beta = -0.5 * (disc.sqrt() + q);
+        let root = cbrt(if q > 0.0 { beta } else { alpha });
         if disc > 0.0 {
+            roots[0] = root - p / root;
             rootn = 1;
         } else {
+            roots[0] = 2.0 * root;
             roots[1] = -0.5 * roots[0];
             roots[2] = -0.5 * roots[0];
             rootn = 3;
-- 
2.43.0

