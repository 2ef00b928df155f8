From e8e2ec0a94c32a37a990b2b7e21525d0cd9e1b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:42 +0000
Subject: [PATCH 01/13] fix: box regions and edges before taking pointers to
 them

Vec::into_boxed_slice() may move the elements (collect() can leave spare
capacity), which left every TopoRing.region dangling.
---
 src/clip/topology.rs  | 10 ++++++----
 src/topology/build.rs | 15 +++++++++------
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/clip/topology.rs b/src/clip/topology.rs
index 14bd58f..99f68a9 100644
--- a/src/clip/topology.rs
+++ b/src/clip/topology.rs
@@ -249,9 +249,11 @@ impl<Data: Clone> Builder<Data> {
                 rings: [ ptr::null(), ptr::null() ],
             }
         }));
+        // Boxing a Vec can move its elements, so do it before pointing at them.
+        let edges: Box<[TopoEdge<Data>]> = edges.into_boxed_slice();
 
         // Build regions and their rings. Make all region pointers null.
-        let mut regions: Vec<TopoRegion<Data>> = self.regions.into_iter().map(|build_region| {
+        let mut regions: Box<[TopoRegion<Data>]> = self.regions.into_iter().map(|build_region| {
             let BuildRegion { data, outer_rings, inner_rings } = build_region;
             let topo_outer_rings: Vec<TopoRing<Data>> = outer_rings.into_iter()
                 .map(|r| build_ring_to_topo_ring_with_null_ptrs(&edges[..], &r)).collect();
@@ -263,7 +265,7 @@ impl<Data: Clone> Builder<Data> {
                 outer_rings: topo_outer_rings.into_boxed_slice(),
                 inner_rings: topo_inner_rings.into_boxed_slice(),
             }
-        }).collect();
+        }).collect::<Vec<_>>().into_boxed_slice();
 
         // Now that regions and edges have their final spots in memory, we can
         // set pointers to them.
@@ -289,8 +291,8 @@ impl<Data: Clone> Builder<Data> {
         }
 
         Topology {
-            regions: regions.into_boxed_slice(),
-            edges: edges.into_boxed_slice(),
+            regions: regions,
+            edges: edges,
         }
     }
 }
diff --git a/src/topology/build.rs b/src/topology/build.rs
index 66c943a..42cb85a 100644
--- a/src/topology/build.rs
+++ b/src/topology/build.rs
@@ -145,11 +145,14 @@ impl<Data> TopologyBuilder<Data>
             })
         }
 
-        let edges: Vec<TopoEdge<Data>> = edges_sort.into_iter()
+        // Box the edges and regions _before_ pointing at them: boxing a Vec can
+        // move its elements.
+        let edges: Box<[TopoEdge<Data>]> = edges_sort.into_iter()
             .map(|o| o.expect("programming error: an Edge is missing from self.edges"))
-            .collect();
+            .collect::<Vec<_>>()
+            .into_boxed_slice();
 
-        let mut regions: Vec<TopoRegion<Data>> = self.regions.into_iter().map(|build_region| {
+        let mut regions: Box<[TopoRegion<Data>]> = self.regions.into_iter().map(|build_region| {
             let BuildRegion { data, outer_rings, inner_rings } = build_region;
 
             let topo_outer_rings: Vec<TopoRing<Data>> = outer_rings.into_iter()
@@ -162,7 +165,7 @@ impl<Data> TopologyBuilder<Data>
                 outer_rings: topo_outer_rings.into_boxed_slice(),
                 inner_rings: topo_inner_rings.into_boxed_slice(),
             }
-        }).collect();
+        }).collect::<Vec<_>>().into_boxed_slice();
 
         for mut region in regions.iter_mut() {
             let region_p = region as *const TopoRegion<Data>;
@@ -186,8 +189,8 @@ impl<Data> TopologyBuilder<Data>
         }
 
         Topology {
-            regions: regions.into_boxed_slice(),
-            edges: edges.into_boxed_slice(),
+            regions: regions,
+            edges: edges,
         }
     }
 }
-- 
2.43.0


From 1d8431fa15ac1b022a342eea79149e9351a4be63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:56 +0000
Subject: [PATCH 02/13] fix: compute ring areas without integer overflow

The doubled area of a ring of u32 points needs up to 66 signed bits. In 64
bits a big ring overflowed: it panicked in debug builds, and in release builds
could be dropped as empty or get the wrong winding order.
---
 src/clip/topology.rs |  2 +-
 src/geo/mod.rs       | 26 ++++++++++++++------------
 src/normalize.rs     |  4 ++--
 3 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/clip/topology.rs b/src/clip/topology.rs
index 99f68a9..c4289f4 100644
--- a/src/clip/topology.rs
+++ b/src/clip/topology.rs
@@ -170,7 +170,7 @@ impl<Data: Clone> Builder<Data> {
     fn clip_ring(&mut self, ring: &TopoRing<Data>) -> Option<BuildRing> {
         let mut ret: Vec<BuildDirectedEdge> = Vec::with_capacity(2 * ring.directed_edges.len());
 
-        let mut area2: i64 = 0;
+        let mut area2: i128 = 0;
         let mut start_point: Option<Point> = None;
         let mut previous_point: Option<Point> = None;
 
diff --git a/src/geo/mod.rs b/src/geo/mod.rs
index f1d6118..669d384 100644
--- a/src/geo/mod.rs
+++ b/src/geo/mod.rs
@@ -88,12 +88,14 @@ pub enum WindingOrder {
 ///
 /// You can call this method on each edge in turn and sum the results to arrive
 /// at the total area (and implicit winding order).
-pub fn signed_area2<'a, T: IntoIterator<Item=&'a Point>>(points: T) -> i64 {
+///
+/// The area of a ring of `u32` coordinates doesn't always fit in 64 bits.
+pub fn signed_area2<'a, T: IntoIterator<Item=&'a Point>>(points: T) -> i128 {
     // https://en.wikipedia.org/wiki/Shoelace_formula
-    let mut a: i64 = 0;
+    let mut a: i128 = 0;
 
     for (p1, p2) in points.into_iter().tuple_windows() {
-        a += (p1.0 as i64) * (p2.1 as i64) - (p2.0 as i64) * (p1.1 as i64)
+        a += (p1.0 as i128) * (p2.1 as i128) - (p2.0 as i128) * (p1.1 as i128)
     }
 
     a
@@ -108,20 +110,20 @@ pub fn signed_area2<'a, T: IntoIterator<Item=&'a Point>>(points: T) -> i64 {
 /// A zero-area Ring is considered to be Clockwise.
 ///
 /// Assumes the first and last Points are identical.
-pub fn area2_and_winding_order<'a, T: IntoIterator<Item=&'a Point>>(points: T) -> (u64, WindingOrder) {
+pub fn area2_and_winding_order<'a, T: IntoIterator<Item=&'a Point>>(points: T) -> (u128, WindingOrder) {
     let a = signed_area2(points);
 
     if a >= 0 {
-        (a as u64, WindingOrder::Clockwise)
+        (a as u128, WindingOrder::Clockwise)
     } else {
-        (-a as u64, WindingOrder::CounterClockwise)
+        (-a as u128, WindingOrder::CounterClockwise)
     }
 }
 
 /// Returns 2*area
 ///
 /// Assumes the first and last Points are identical.
-pub fn area2<'a, T: IntoIterator<Item=&'a Point>>(points: T) -> u64 {
+pub fn area2<'a, T: IntoIterator<Item=&'a Point>>(points: T) -> u128 {
     area2_and_winding_order(points).0
 }
 
@@ -168,7 +170,7 @@ impl Ring {
     }
 
     /// Returns 2*area
-    pub fn area2(&self) -> u64 {
+    pub fn area2(&self) -> u128 {
         self.area2_and_winding_order().0
     }
 
@@ -179,18 +181,18 @@ impl Ring {
     /// coordinates.
     ///
     /// A zero-area Ring is considered to be Clockwise.
-    pub fn area2_and_winding_order(&self) -> (u64, WindingOrder) {
+    pub fn area2_and_winding_order(&self) -> (u128, WindingOrder) {
         match self {
             &Ring::Edges(ref edges) => {
-                let mut a: i64 = 0;
+                let mut a: i128 = 0;
                 for edge in edges.iter() {
                     a += signed_area2(edge.0.iter());
                 }
 
                 if a >= 0 {
-                    (a as u64, WindingOrder::Clockwise)
+                    (a as u128, WindingOrder::Clockwise)
                 } else {
-                    (-a as u64, WindingOrder::CounterClockwise)
+                    (-a as u128, WindingOrder::CounterClockwise)
                 }
             }
             &Ring::Points(ref points) => area2_and_winding_order(points.iter()),
diff --git a/src/normalize.rs b/src/normalize.rs
index 4b9932b..6effa96 100644
--- a/src/normalize.rs
+++ b/src/normalize.rs
@@ -190,11 +190,11 @@ fn join_related_edges<T>(edges: &Vec<NormEdge<T>>) -> Vec<NormEdge<T>> {
 
 fn calculate_winding_order_from_edges<T>(edges: &Vec<NormEdge<T>>) -> WindingOrder {
     // https://en.wikipedia.org/wiki/Shoelace_formula
-    let mut a: i64 = 0;
+    let mut a: i128 = 0;
 
     for ref edge in edges {
         for (p1, p2) in edge.points.iter().tuple_windows() {
-            a += (p1.0 as i64) * (p2.1 as i64) - (p2.0 as i64) * (p1.1 as i64)
+            a += (p1.0 as i128) * (p2.1 as i128) - (p2.0 as i128) * (p1.1 as i128)
         }
     }
 
-- 
2.43.0


From deb2b66e9cef3e8393a47058b22fc869e8555ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:57 +0000
Subject: [PATCH 03/13] fix: Ring::points() repeated the point where two edges
 meet

---
 src/geo/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/geo/mod.rs b/src/geo/mod.rs
index 669d384..8d7dd34 100644
--- a/src/geo/mod.rs
+++ b/src/geo/mod.rs
@@ -142,6 +142,8 @@ pub fn winding_order<'a, T: IntoIterator<Item=&'a Point>>(points: T) -> WindingO
 
 impl Ring {
     /// Returns all Points in the Ring, in order, copied.
+    ///
+    /// Consecutive Edges share a Point; it appears once in the return value.
     pub fn points(&self) -> Box<[Point]> {
         match self {
             &Ring::Points(ref points) => points.clone(),
@@ -149,7 +151,8 @@ impl Ring {
                 let len = edges.iter().map(|e| e.0.len()).sum();
                 let mut ret = Vec::<Point>::with_capacity(len);
                 for ref edge in edges.iter() {
-                    ret.extend_from_slice(&*edge.0);
+                    let skip = if ret.last().is_some() && ret.last() == edge.0.first() { 1 } else { 0 };
+                    ret.extend_from_slice(&edge.0[skip ..]);
                 }
                 ret.into_boxed_slice()
             }
-- 
2.43.0


From 7ba8563d23ee18131e13ae737d604e9d5682aa0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:25 +0000
Subject: [PATCH 04/13] fix: normalize regions that touch themselves or
 surround holes

* Merging adjacent rings panicked when a region touched itself at a point or
  when a ring filled part of a hole of the same region, and it left holes
  between merged rings among the outer rings. Merge outer and inner rings
  together, tell apart several edges leaving one point, and sort the results
  by winding order.
* Where more than two boundaries meet, rings on both sides of an edge joined it
  with different neighbours and so stopped sharing it. Keep such nodes.
* Drop zero-area rings instead of panicking.
---
 src/normalize.rs | 252 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 171 insertions(+), 81 deletions(-)

diff --git a/src/normalize.rs b/src/normalize.rs
index 6effa96..cc550ac 100644
--- a/src/normalize.rs
+++ b/src/normalize.rs
@@ -1,5 +1,5 @@
 use std::cmp::Ordering;
-use std::collections::btree_map::{BTreeMap,Entry};
+use std::collections::{BTreeMap,HashMap};
 use std::ptr;
 use itertools::Itertools;
 
@@ -39,6 +39,13 @@ impl<T> NormRing<T> {
     }
 }
 
+/// Returns the Regions the given edge separates. (`null` means no Region.)
+fn edge_regions<T>(edge: &TopoEdge<T>) -> [ *const TopoRegion<T>; 2 ] {
+    let region = |ring: *const TopoRing<T>| unsafe { ring.as_ref() }.map_or(ptr::null(), |r| r.region);
+
+    [ region(edge.rings[0]), region(edge.rings[1]) ]
+}
+
 /// Edge data structure used when normalizing.
 #[derive(Debug,Eq)]
 struct NormEdge<T> {
@@ -61,12 +68,7 @@ impl<T> NormEdge<T> {
             points.reverse();
         }
 
-        let regions = unsafe { [
-            (*edge.rings[0]).region,
-            if edge.rings[1].is_null() { ptr::null() } else { (*edge.rings[1]).region }
-        ] };
-
-        NormEdge { points: points, regions: regions }
+        NormEdge { points: points, regions: edge_regions(edge) }
     }
 
     /// `true` iff this NormEdge is between two Rings in the same Region.
@@ -110,10 +112,47 @@ fn rotate_island_edge<T>(edge: &NormEdge<T>) -> NormEdge<T> {
     }
 }
 
+/// How many times any (non-redundant) edge arrives at or leaves each `Point`.
+///
+/// There are two on an ordinary `Point`, and more where several boundaries
+/// meet.
+type Degrees = HashMap<Point, usize>;
+
+fn calculate_degrees<T>(topo: &Topology<T>) -> Degrees {
+    let mut ret = Degrees::new();
+
+    for ref edge in topo.edges.iter() {
+        let regions = edge_regions(edge);
+
+        if regions[0] != regions[1] {
+            for (p1, p2) in edge.points.iter().tuple_windows() {
+                *ret.entry(*p1).or_insert(0) += 1;
+                *ret.entry(*p2).or_insert(0) += 1;
+            }
+        }
+    }
+
+    ret
+}
+
+/// `true` iff every Ring that contains `edge1` and `edge2` joins them at
+/// `point`, where `edge1` ends and `edge2` begins.
+///
+/// Where more than two boundaries meet, the Rings on both sides of an Edge may
+/// continue in different ways. Such a Node must stay, lest the Rings stop
+/// sharing the Edge.
+fn can_join<T>(edge1: &NormEdge<T>, edge2: &NormEdge<T>, point: &Point, degrees: &Degrees) -> bool {
+    edge1.regions == edge2.regions && (edge1.regions[1].is_null() || degrees.get(point) == Some(&2))
+}
+
 /// Returns an equivalend set of Edges, rotated so that the first Edge starts
 /// at the leftmost/topmost Node.
-fn rotate_edges<T>(edges: &Vec<NormEdge<T>>) -> Vec<NormEdge<T>> {
+fn rotate_edges<T>(edges: &Vec<NormEdge<T>>, degrees: &Degrees) -> Vec<NormEdge<T>> {
     if edges.len() == 1 {
+        if !can_join(&edges[0], &edges[0], &edges[0].points[0], degrees) {
+            return edges.clone();
+        }
+
         vec![ rotate_island_edge(&edges[0]) ]
     } else {
         match edges.iter().enumerate().min_by_key(|&(_, e)| e.points[0]) {
@@ -156,15 +195,14 @@ fn rotate_edges<T>(edges: &Vec<NormEdge<T>>) -> Vec<NormEdge<T>> {
 ///
 /// Implementation note: we often call this function twice with the same Edge:
 /// once for `a`'s `Ring` and once for `b`'s. Both calls will join `ABC` in the
-/// same way (except at a Node joining two rings from the same Region to
-/// a second Region ... which we fix in join_adjacent_rings()).
-fn join_related_edges<T>(edges: &Vec<NormEdge<T>>) -> Vec<NormEdge<T>> {
+/// same way: see `can_join()`.
+fn join_related_edges<T>(edges: &Vec<NormEdge<T>>, degrees: &Degrees) -> Vec<NormEdge<T>> {
     let mut ret = Vec::<NormEdge<T>>::new();
 
     for ref edge in edges {
         // Either extend the existing edge or add a new one
         let extended = match ret.last_mut() {
-            Some(ref mut last) if last.regions == edge.regions => {
+            Some(ref mut last) if can_join(last, edge, &edge.points[0], degrees) => {
                 last.points.extend_from_slice(&edge.points[1..]);
                 true
             },
@@ -176,7 +214,7 @@ fn join_related_edges<T>(edges: &Vec<NormEdge<T>>) -> Vec<NormEdge<T>> {
         }
     }
 
-    if ret.len() > 1 && ret[0].regions == ret.last().unwrap().regions {
+    if ret.len() > 1 && can_join(ret.last().unwrap(), &ret[0], &ret[0].points[0], degrees) {
         // edges[0].points[0] isn't an important point. Join edges[0]
         // and edges[last] into a single edge, edges[0].
         let mut points = ret.last().unwrap().points.clone();
@@ -188,7 +226,7 @@ fn join_related_edges<T>(edges: &Vec<NormEdge<T>>) -> Vec<NormEdge<T>> {
     ret
 }
 
-fn calculate_winding_order_from_edges<T>(edges: &Vec<NormEdge<T>>) -> WindingOrder {
+fn calculate_signed_area2_from_edges<T>(edges: &Vec<NormEdge<T>>) -> i128 {
     // https://en.wikipedia.org/wiki/Shoelace_formula
     let mut a: i128 = 0;
 
@@ -198,8 +236,11 @@ fn calculate_winding_order_from_edges<T>(edges: &Vec<NormEdge<T>>) -> WindingOrd
         }
     }
 
-    assert!(a != 0);
-    if a > 0 {
+    a
+}
+
+fn calculate_winding_order_from_edges<T>(edges: &Vec<NormEdge<T>>) -> WindingOrder {
+    if calculate_signed_area2_from_edges(edges) >= 0 {
         WindingOrder::Clockwise
     } else {
         WindingOrder::CounterClockwise
@@ -223,6 +264,47 @@ fn wind_edges<T>(edges: &Vec<NormEdge<T>>, order: WindingOrder) -> Vec<NormEdge<
     }
 }
 
+/// Removes and returns an edge that leaves `point`.
+///
+/// If several edges leave `point`, the Region touches itself there. Pick the one
+/// that borders the same part of the Region as the edge we arrived with. (We
+/// arrived from `from`, with the Region on our right-hand side.)
+fn take_edge<T>(edges: &mut BTreeMap<Point, Vec<NormEdge<T>>>, point: Point, from: Option<Point>) -> NormEdge<T> {
+    fn vector(p1: Point, p2: Point) -> (i128, i128) {
+        (p2.0 as i128 - p1.0 as i128, p2.1 as i128 - p1.1 as i128)
+    }
+    fn cross(a: (i128, i128), b: (i128, i128)) -> i128 { a.0 * b.1 - a.1 * b.0 }
+    fn dot(a: (i128, i128), b: (i128, i128)) -> i128 { a.0 * b.0 + a.1 * b.1 }
+
+    let (edge, is_last) = match edges.get_mut(&point) {
+        None => {
+            panic!("Expected Edge to continue past {:?} when building Ring", point);
+        }
+        Some(candidates) => {
+            // Rotate counter-clockwise, starting where we came from, until we
+            // hit an edge.
+            let back = vector(point, from.unwrap_or(point));
+            let half = |v: (i128, i128)| {
+                let c = cross(back, v);
+                if c < 0 || (c == 0 && dot(back, v) < 0) { 0 } else { 1 }
+            };
+            let index = (0 .. candidates.len()).min_by(|&i, &j| {
+                let a = vector(point, candidates[i].points[1]);
+                let b = vector(point, candidates[j].points[1]);
+                half(a).cmp(&half(b)).then(cross(a, b).cmp(&0))
+            }).unwrap();
+
+            (candidates.swap_remove(index), candidates.is_empty())
+        }
+    };
+
+    if is_last {
+        edges.remove(&point);
+    }
+
+    edge
+}
+
 /// Returns an equivalent Vec of `NormRing`s that has the smallest number of
 /// elements possible.
 ///
@@ -239,9 +321,13 @@ fn wind_edges<T>(edges: &Vec<NormEdge<T>>, order: WindingOrder) -> Vec<NormEdge<
 ///
 /// Here, `FC` is a redundant edge.
 ///
-/// Logic: glob all edges (from all rings) into a single BTreeSet, omitting
-/// redundant edges. Remove the first edge from the set and "follow" it to form
-/// the first Ring. Repeat until the set is empty.
+/// Logic: glob all edges (from all rings) into a single BTreeMap, omitting
+/// redundant edges. Remove the first edge from the map and "follow" it to form
+/// the first Ring. Repeat until the map is empty.
+///
+/// Outer rings that surround a hole merge into an outer ring and an inner one;
+/// an outer ring that borders an inner ring makes for a smaller hole. So pass
+/// outer and inner rings together, and look at the winding order of the output.
 ///
 /// This is O(N lg N); to speed things up, we pass through rings that aren't
 /// redundant and we nix rings that are entirely redundant. (Exercise for the
@@ -267,12 +353,12 @@ fn wind_edges<T>(edges: &Vec<NormEdge<T>>, order: WindingOrder) -> Vec<NormEdge<
 /// well.
 ///
 /// Input Rings may be in any order; output Rings will be in undefined order.
-fn join_adjacent_rings<T>(rings: &Vec<NormRing<T>>) -> Vec<NormRing<T>> {
+fn join_adjacent_rings<T>(rings: &Vec<NormRing<T>>, degrees: &Degrees) -> Vec<NormRing<T>> {
     let mut ret = Vec::<NormRing<T>>::with_capacity(rings.len()); // upper-bound capacity
 
-    // NormRings are directed. We'll index them by their first Point. There's
-    // no way for two non-redundant edges to leave the same Point.
-    let mut to_merge: BTreeMap<Point, NormEdge<T>> = BTreeMap::new();
+    // NormRings are directed. We'll index them by their first Point. Several
+    // non-redundant edges leave a Point at which the Region touches itself.
+    let mut to_merge: BTreeMap<Point, Vec<NormEdge<T>>> = BTreeMap::new();
 
     for ref ring in rings {
         let (redundant, useful): (Vec<_>, Vec<_>) = ring.edges.clone().into_iter().partition(|ref e| e.is_redundant());
@@ -287,15 +373,8 @@ fn join_adjacent_rings<T>(rings: &Vec<NormRing<T>>) -> Vec<NormRing<T>> {
             }
             _ => {
                 // index the useful edges and ignore the redundant ones
-                for ref edge in useful {
-                    match to_merge.entry(edge.points[0]) {
-                        Entry::Vacant(e) => {
-                            e.insert(edge.clone());
-                        }
-                        Entry::Occupied(e) => {
-                            panic!("Bug/edge case: two distinct edges in the same region are both trying to leave {:?}", e.key());
-                        }
-                    }
+                for edge in useful {
+                    to_merge.entry(edge.points[0]).or_insert_with(Vec::new).push(edge);
                 }
             }
         }
@@ -308,63 +387,44 @@ fn join_adjacent_rings<T>(rings: &Vec<NormRing<T>>) -> Vec<NormRing<T>> {
 
     // Now to reconstruct the rings we need to merge....
     while to_merge.len() > 0 {
-        let start = *to_merge.keys().next().unwrap();
-        let mut end = start;
+        let mut end = *to_merge.keys().next().unwrap();
+        let mut from: Option<Point> = None;
 
-        let mut edges: Vec<NormEdge<T>> = Vec::new();
+        let mut path: Vec<NormEdge<T>> = Vec::new();
 
         loop {
-            match to_merge.remove(&end) {
-                None => {
-                    panic!("Expected Edge to continue past {:?} when building Ring", end);
-                }
-                Some(edge) => {
-                    end = *edge.points.last().unwrap();
-                    edges.push(edge);
-                }
-            }
+            let edge = take_edge(&mut to_merge, end, from);
+            end = *edge.points.last().unwrap();
+            from = Some(edge.points[edge.points.len() - 2]);
+            path.push(edge);
 
-            if end == start {
-                // we've reconstructed a ring. to_merge may or may not be empty.
-                break;
-            }
-        }
+            // When we're back at a Node, we've reconstructed a ring.
+            if let Some(index) = path.iter().position(|e| e.points[0] == end) {
+                let mut edges = path.split_off(index);
+
+                edges = join_related_edges(&edges, degrees);
+                edges = rotate_edges(&edges, degrees);
 
-        edges = join_related_edges(&edges);
-        edges = rotate_edges(&edges);
+                ret.push(NormRing { edges: edges });
 
-        ret.push(NormRing { edges: edges });
+                if path.len() == 0 {
+                    // to_merge may or may not be empty.
+                    break;
+                }
+            }
+        }
     }
 
     ret.sort();
     ret
 }
 
-/// Returns a normalized copy of the given set of outer/inner rings.
+/// Returns wound, rotated copies of the given rings, with as few edges as
+/// possible.
 ///
 /// Call with WindingOrder::Clockwise on outer rings and CounterClockwise on
 /// inner rings.
-///
-/// Note the tidy cleanup of donuts, even though this function isn't called
-/// with both outer rings and inner rings at the same time (it either gets
-/// all outer rings or all inner rings). For instance:
-///
-/// ```ascii
-/// A------B
-/// |      |
-/// | E--H |
-/// | |  | |
-/// | F--G |
-/// |      |
-/// D------C
-/// ```
-///
-/// If a region has two outer rings `ABCD` and `EHGF`, and one inner ring
-/// ("hole"), `EFGH`, then this function's call to join_adjacent_rings() will
-/// nix `EHGF` when called on outer rings, and it will nix `EFGH` when called
-/// on inner rings (since the edges have two rings and thus two Regions, and
-/// both Regions are identical). Ta-da! The donut is gone.
-fn normalize_region_rings<T>(in_rings: &[TopoRing<T>], winding_order: WindingOrder) -> Box<[Ring]> {
+fn normalize_rings<T>(in_rings: &[TopoRing<T>], winding_order: WindingOrder, degrees: &Degrees) -> Vec<NormRing<T>> {
     let mut rings = Vec::<NormRing<T>>::with_capacity(in_rings.len());
 
     for ref boxed_ring in in_rings {
@@ -376,18 +436,48 @@ fn normalize_region_rings<T>(in_rings: &[TopoRing<T>], winding_order: WindingOrd
             edges.push(NormEdge::<T>::with_directed_edge(directed_edge));
         }
 
-        edges = join_related_edges(&edges);
+        edges = join_related_edges(&edges, degrees);
         edges = wind_edges(&edges, winding_order);
-        edges = rotate_edges(&edges);
+        edges = rotate_edges(&edges, degrees);
 
         rings.push(NormRing::<T> { edges: edges });
     }
 
-    rings = join_adjacent_rings(&rings);
+    rings
+}
+
+/// Returns normalized copies of the given Region's outer and inner rings.
+///
+/// Note the tidy cleanup of donuts. For instance:
+///
+/// ```ascii
+/// A------B
+/// |      |
+/// | E--H |
+/// | |  | |
+/// | F--G |
+/// |      |
+/// D------C
+/// ```
+///
+/// If a region has two outer rings `ABCD` and `EHGF`, and one inner ring
+/// ("hole"), `EFGH`, then this function's call to join_adjacent_rings() will
+/// nix both `EHGF` and `EFGH` (since the edges have two rings and thus two
+/// Regions, and both Regions are identical). Ta-da! The donut is gone.
+fn normalize_region_rings<T>(region: &TopoRegion<T>, degrees: &Degrees) -> (Box<[Ring]>, Box<[Ring]>) {
+    let mut rings = normalize_rings(&region.outer_rings, WindingOrder::Clockwise, degrees);
+    rings.extend(normalize_rings(&region.inner_rings, WindingOrder::CounterClockwise, degrees));
+
+    rings = join_adjacent_rings(&rings, degrees);
     rings.sort();
 
-    let ret: Vec<Ring> = rings.into_iter().map(|r| r.into_ring()).collect();
-    ret.into_boxed_slice()
+    let (outer, inner): (Vec<_>, Vec<_>) = rings.into_iter()
+        .filter(|r| calculate_signed_area2_from_edges(&r.edges) != 0)
+        .partition(|r| calculate_winding_order_from_edges(&r.edges) == WindingOrder::Clockwise);
+
+    let outer_rings: Vec<Ring> = outer.into_iter().map(|r| r.into_ring()).collect();
+    let inner_rings: Vec<Ring> = inner.into_iter().map(|r| r.into_ring()).collect();
+    (outer_rings.into_boxed_slice(), inner_rings.into_boxed_slice())
 }
 
 /// Returns a "normalized" copy of the given Topology.
@@ -408,10 +498,10 @@ fn normalize_region_rings<T>(in_rings: &[TopoRing<T>], winding_order: WindingOrd
 ///   in case of a tie, topmost) `Point`.
 pub fn normalize<Data: Clone>(topo: &Topology<Data>) -> Topology<Data> {
     let mut builder = TopologyBuilder::<Data>::new();
+    let degrees = calculate_degrees(topo);
 
     for ref region in topo.regions.iter() {
-        let outer_rings = normalize_region_rings(&region.outer_rings, WindingOrder::Clockwise);
-        let inner_rings = normalize_region_rings(&region.inner_rings, WindingOrder::CounterClockwise);
+        let (outer_rings, inner_rings) = normalize_region_rings(region, &degrees);
         builder.add_region(Region {
             data: region.data.clone(),
             outer_rings: outer_rings,
-- 
2.43.0


From d035431446dc5ec2ea5a32e3661d5b8f40b95d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:13 +0000
Subject: [PATCH 05/13] fix: weigh points properly when simplifying

* area2() multiplied two coordinates instead of subtracting them, and it
  overflowed on big coordinates.
* sift_down() compared children with the wrong element, and points did not know
  their initial heap index: points came out of the heap in the wrong order.
* smallest_area2 is the area we may morph the line by; drop points of exactly
  that weight (the tests that say so passed only by accident).
* A closed edge of fewer than four points (clipping makes them) panicked.
---
 src/simplify/simplify_edge.rs | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/simplify/simplify_edge.rs b/src/simplify/simplify_edge.rs
index 38c01b8..a85be89 100644
--- a/src/simplify/simplify_edge.rs
+++ b/src/simplify/simplify_edge.rs
@@ -2,10 +2,10 @@ use std::cmp;
 use std::ptr;
 use geo;
 
-fn area2(a: &geo::Point, b: &geo::Point, c: &geo::Point) -> u64 {
-    fn i(u: u32) -> i64 { u as i64 }
-    let a2: i64 = (i(b.0) * i(a.0)) * (i(c.1) - i(a.1)) - (i(c.0) - i(a.0)) * (i(b.1) - i(a.1));
-    a2.abs() as u64
+fn area2(a: &geo::Point, b: &geo::Point, c: &geo::Point) -> u128 {
+    fn i(u: u32) -> i128 { u as i128 }
+    let a2: i128 = (i(b.0) - i(a.0)) * (i(c.1) - i(a.1)) - (i(c.0) - i(a.0)) * (i(b.1) - i(a.1));
+    a2.abs() as u128
 }
 
 #[derive(Debug)]
@@ -16,7 +16,7 @@ struct Point {
     /// The "importance" of the point. This is the "output" of Visvalingam and
     /// Whyatt's algorithm. We'll only keep points above a certain weight. (the
     /// first and last point have maximum weight.)
-    weight: u64,
+    weight: u128,
 
     /// Position in a binary heap (minimum weight first).
     heap_index: usize,
@@ -73,9 +73,9 @@ impl From<Vec<geo::Point>> for PointHeap {
             })
             .collect();
 
-        points[0].weight = u64::max_value();
+        points[0].weight = u128::max_value();
         points[0].next = &points[1];
-        points[len - 1].weight = u64::max_value();
+        points[len - 1].weight = u128::max_value();
         points[len - 1].previous = &points[len - 2];
 
         // Compute initial weights
@@ -83,6 +83,7 @@ impl From<Vec<geo::Point>> for PointHeap {
             let area2 = area2(&points[i - 1].geo_point, &points[i].geo_point, &points[i + 1].geo_point);
 
             points[i].weight = area2;
+            points[i].heap_index = i - 1; // the heap has no first point
             points[i].next = &points[i + 1];
             points[i].previous = &points[i - 1];
         }
@@ -134,7 +135,7 @@ impl PointHeap {
             let child = left_child(root);
             let mut swap = root;
 
-            if unsafe { *self.heap[start] > *self.heap[child] } {
+            if unsafe { *self.heap[root] > *self.heap[child] } {
                 swap = child;
             }
 
@@ -249,7 +250,7 @@ impl PointHeap {
     ///    enough to include.
     ///
     /// Other side-effects: fiddles with self.heap and self.points[*].heap_index
-    fn visvalingam_whyatt(&mut self, smallest_weight: u64) -> Box<[geo::Point]> {
+    fn visvalingam_whyatt(&mut self, smallest_weight: u128) -> Box<[geo::Point]> {
         let mut last_weight = 0; // weight of previously-eliminated point
 
         while self.heap.len() > 0 {
@@ -262,7 +263,7 @@ impl PointHeap {
             if small_point.weight < last_weight {
                 small_point.weight = last_weight;
             } else {
-                if small_point.weight >= smallest_weight {
+                if small_point.weight > smallest_weight {
                     // We don't need to figure out the exact weight of
                     // any more points, because we know we aren't going to
                     // remove them when we simplify. (Their weights are
@@ -282,7 +283,7 @@ impl PointHeap {
         }
 
         let mut ret: Vec<geo::Point> = self.points.iter()
-            .filter(|ref p| p.weight >= smallest_weight)
+            .filter(|ref p| p.weight > smallest_weight)
             .map(|ref p| p.geo_point)
             .collect();
 
@@ -338,8 +339,13 @@ impl PointHeap {
 /// because it's in terms of rectangles. For instance, if you want to err by
 /// "at most one pixel" and coordinates are pixels, set `smallest_area2` to `1`.
 pub fn simplify_edge(points: &[geo::Point], smallest_area2: u64) -> Box<[geo::Point]> {
+    if points.len() < 4 && points.first() == points.last() {
+        // Clipping can leave such an edge; it can't get any simpler.
+        return points.to_vec().into_boxed_slice();
+    }
+
     let mut point_heap = PointHeap::from(points.to_vec());
-    point_heap.visvalingam_whyatt(smallest_area2)
+    point_heap.visvalingam_whyatt(smallest_area2 as u128)
 }
 
 #[cfg(test)]
-- 
2.43.0


From bad664374ddec590fed4e8501812f4c4f850458e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:17 +0000
Subject: [PATCH 06/13] fix: intersect clip masks without integer overflow

---
 src/clip/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/clip/types.rs b/src/clip/types.rs
index 9b0ea6d..c2cc698 100644
--- a/src/clip/types.rs
+++ b/src/clip/types.rs
@@ -49,7 +49,7 @@ impl ClipMask {
     ///
     /// Assumes either `p1` or `p2` is outside the clip mask.
     pub fn intersect(&self, p1: &Point, p2: &Point) -> Point {
-        fn i(u: u32) -> i64 { u as i64 }
+        fn i(u: u32) -> i128 { u as i128 }
 
         match self {
             &ClipMask::MinX(x) | &ClipMask::MaxX(x) => {
-- 
2.43.0


From 9ccbd6c2ba0b63171929e6bc6caba17b4d5de405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:28 +0000
Subject: [PATCH 07/13] fix: clip rings that plug the same gap along the mask
 more than twice

An outer ring, a hole in it and what fills the hole can all end up with the
same edge along the clip mask; an assertion failed because an edge has only two
rings. Use an edge once per direction and add another one when need be.
---
 src/clip/topology.rs | 45 ++++++++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/src/clip/topology.rs b/src/clip/topology.rs
index c4289f4..f3e9d5c 100644
--- a/src/clip/topology.rs
+++ b/src/clip/topology.rs
@@ -1,5 +1,4 @@
 use std::collections::HashMap;
-use std::collections::hash_map::Entry;
 use std::mem;
 use std::ptr;
 use std::vec;
@@ -44,45 +43,67 @@ fn last_point(points: &[Point], direction: Direction) -> Point {
 #[derive(Debug,Eq,PartialEq,Hash,Clone,Copy)]
 struct BuildEdge(Point, Point);
 
+/// IDs of the edges between two points.
+///
+/// An edge has a ring on each side, so it can be used once in each direction.
+/// Several rings (or parts of a ring) that left the clip area can plug the same
+/// gap in the same direction, though. Then we need several edges.
+#[derive(Debug)]
+struct NewEdgeIds {
+    ids: Vec<EdgeId>,
+    n_forward: usize,
+    n_backward: usize,
+}
+
 #[derive(Debug)]
 struct NewEdgeSet {
     first_edge_id: EdgeId,
-    edges: HashMap<BuildEdge, EdgeId>,
+    n_edges: usize,
+    edges: HashMap<BuildEdge, NewEdgeIds>,
 }
 
 impl NewEdgeSet {
     fn new(first_edge_id: EdgeId) -> NewEdgeSet {
         NewEdgeSet {
             first_edge_id: first_edge_id,
+            n_edges: 0,
             edges: HashMap::new(),
         }
     }
 
     fn len(&self) -> usize {
-        self.edges.len()
+        self.n_edges
     }
 
     fn build_directed_edge(&mut self, p1: &Point, p2: &Point) -> BuildDirectedEdge {
         let (a, b, dir) = if p1 < p2 { (p1, p2, Direction::Forward) } else { (p2, p1, Direction::Backward) };
         let edge = BuildEdge(*a, *b);
-        let next_id: EdgeId = self.first_edge_id + self.edges.len();
+        let next_id: EdgeId = self.first_edge_id + self.n_edges;
 
-        let edge_id = match self.edges.entry(edge) {
-            Entry::Occupied(entry) => *entry.get(),
-            Entry::Vacant(entry) => {
-                entry.insert(next_id);
-                next_id
-            }
+        let ids = self.edges.entry(edge)
+            .or_insert_with(|| NewEdgeIds { ids: Vec::new(), n_forward: 0, n_backward: 0 });
+
+        let index = match dir {
+            Direction::Forward => { ids.n_forward += 1; ids.n_forward - 1 }
+            Direction::Backward => { ids.n_backward += 1; ids.n_backward - 1 }
         };
 
+        if index == ids.ids.len() {
+            ids.ids.push(next_id);
+            self.n_edges += 1;
+        }
+        let edge_id = ids.ids[index];
+
         BuildDirectedEdge { direction: dir, edge_id: edge_id }
     }
 
     /// Iterates over all edges, in ID order.
     fn into_iter(self) -> vec::IntoIter<BuildEdge> {
         let mut ret = vec![ BuildEdge(Point(0, 0), Point(0, 0)); self.len() ];
-        for (build_edge, id) in self.edges.into_iter() {
-            ret[id - self.first_edge_id] = build_edge;
+        for (build_edge, ids) in self.edges.into_iter() {
+            for id in ids.ids {
+                ret[id - self.first_edge_id] = build_edge;
+            }
         }
         ret.into_iter()
     }
-- 
2.43.0


From 57f2152a0437d877be60689eeb9ec0f4199da243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:50 +0000
Subject: [PATCH 08/13] fix: survive corrupt .shp records and skip over them

Short records panicked, an unreadable record was read again from the middle
forever, and memory was reserved for whatever length a header claimed.
---
 src/read/shapefile/shp.rs | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/read/shapefile/shp.rs b/src/read/shapefile/shp.rs
index 868d50e..507eec2 100644
--- a/src/read/shapefile/shp.rs
+++ b/src/read/shapefile/shp.rs
@@ -4,6 +4,7 @@ use std::error;
 use std::fmt;
 use std::fs;
 use std::io;
+use std::io::Read;
 use std::path::Path;
 use byteorder::{BigEndian, ByteOrder, LittleEndian};
 use itertools::Itertools;
@@ -161,7 +162,7 @@ fn read_shp_header(file: &mut io::Read) -> Result<ShpHeader, ShpError> {
             match ShpShapeType::with_u32(shape_type_u32) {
                 Some(ShpShapeType::Polygon) => {
                     Ok(ShpHeader {
-                        file_n_bytes: (file_len * 2) as usize,
+                        file_n_bytes: file_len as usize * 2,
                         shape_type: ShpShapeType::Polygon,
                         bounding_box: bounding_box,
                     })
@@ -185,11 +186,19 @@ fn parse_point(buf: &[u8]) -> Result<ShpPoint, ShpError> {
 }
 
 fn parse_polygon_record(buf: &[u8], record_number: u32) -> Result<ShpPolygonRecord, ShpError> {
+    if buf.len() < 4 {
+        return Err(ShpError::ParseError(format!("Record number {} has only {} bytes: there is no shape type", record_number, buf.len())));
+    }
+
     let shape_type_u32 = LittleEndian::read_u32(&buf[0..4]);
     if shape_type_u32 != 5 {
         return Err(ShpError::ParseError(format!("Record number {} has unsupported shape type: found {}, expected {}", record_number, shape_type_u32, 5)));
     }
 
+    if buf.len() < 44 {
+        return Err(ShpError::ParseError(format!("Record number {} has only {} bytes: a polygon needs at least 44", record_number, buf.len())));
+    }
+
     let num_parts = LittleEndian::read_u32(&buf[36..40]) as usize;
     if num_parts == 0 {
         return Err(ShpError::ParseError(format!("Record number {} has no parts", record_number)));
@@ -246,20 +255,26 @@ fn parse_polygon_record(buf: &[u8], record_number: u32) -> Result<ShpPolygonReco
 /// Reads the next Polygon record from the file, and returns the number of bytes
 /// that polygon consumed (including its record header).
 ///
+/// Returns Err if the file could not be read: there is no telling where the
+/// next record starts. When a whole record was read but isn't a valid Polygon,
+/// returns an inner Err.
+///
 /// Side effect: advances the file cursor to the next Polygon.
-fn read_polygon_record(file: &mut io::Read) -> Result<(ShpPolygonRecord, usize), ShpError> {
+fn read_polygon_record(file: &mut io::Read) -> Result<(Result<ShpPolygonRecord, ShpError>, usize), ShpError> {
     let mut header_buf = [ 0u8; SHP_RECORD_HEADER_LENGTH ];
 
     match file.read_exact(&mut header_buf) {
         Err(err) => Err(ShpError::IOError(err)),
         Ok(_) => {
             let record_number = BigEndian::read_u32(&header_buf[0..4]);
-            let content_length = BigEndian::read_u32(&header_buf[4..8]) as usize;
+            let n_bytes = BigEndian::read_u32(&header_buf[4..8]) as usize * 2;
 
-            let mut buf = vec![ 0u8; content_length * 2 ];
-            match file.read_exact(&mut buf) {
+            // Don't allocate n_bytes up front: the file might not be that long
+            let mut buf = Vec::<u8>::new();
+            match file.take(n_bytes as u64).read_to_end(&mut buf) {
                 Err(err) => Err(ShpError::IOError(err)),
-                Ok(_) => parse_polygon_record(&buf[..], record_number).map(|record| (record, header_buf.len() + buf.len()))
+                Ok(n) if n < n_bytes => Err(ShpError::IOError(io::Error::new(io::ErrorKind::UnexpectedEof, "failed to fill whole buffer"))),
+                Ok(_) => Ok((parse_polygon_record(&buf[..], record_number), header_buf.len() + buf.len())),
             }
         }
     }
@@ -321,13 +336,17 @@ impl<R: io::Read> Iterator for ShpReader<R> {
             None
         } else {
             match read_polygon_record(&mut self.file) {
-                Err(err) => Some(Err(err)),
+                Err(err) => {
+                    // We can't find any further records: stop iterating.
+                    self.n_bytes_already_read = self.header.file_n_bytes;
+                    Some(Err(err))
+                }
                 Ok((record, n_bytes)) => {
                     self.n_bytes_already_read += n_bytes;
                     if self.n_bytes_already_read > self.header.file_n_bytes {
                         Some(Err(ShpError::ParseError(format!("The Shapefile header suggests the file is {} bytes long, but it's longer than that.", self.header.file_n_bytes))))
                     } else {
-                        Some(Ok(record))
+                        Some(record)
                     }
                 }
             }
-- 
2.43.0


From 4eeab22ce5f6f4728331241c7358767c619280ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:50 +0000
Subject: [PATCH 09/13] fix: return errors instead of panicking on corrupt .dbf
 files

Also, stop iterating when the file can't be read any more.
---
 src/read/shapefile/dbf.rs | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/read/shapefile/dbf.rs b/src/read/shapefile/dbf.rs
index dda61c1..cd6b1cd 100644
--- a/src/read/shapefile/dbf.rs
+++ b/src/read/shapefile/dbf.rs
@@ -89,18 +89,27 @@ fn dbf_numeric_to_valid_string(bytes: &[u8]) -> Result<String, DbfError> {
 
 impl DbfField {
     pub fn read_string(&self, record: &DbfRecord) -> Result<String, DbfError> {
-        let bytes = &record.bytes[self.offset .. self.offset + self.len];
+        let bytes = match record.bytes.get(self.offset .. self.offset + self.len) {
+            None => { return Err(DbfError::ParseError(String::from("Record is too short to hold this field"))); }
+            Some(bytes) => bytes,
+        };
 
         match &self.data_type {
             &DbfType::Character(encoding) => {
                 encoding.decode(trim_end_spaces(bytes), encoding::DecoderTrap::Strict)
                     .map_err(|s| DbfError::ParseError(s.to_string()))
             }
-            &DbfType::Long => Ok(LittleEndian::read_u32(bytes).to_string()),
+            &DbfType::Long => {
+                if bytes.len() < 4 {
+                    Err(DbfError::ParseError(String::from("Bytes in integer record are too few to represent an integer")))
+                } else {
+                    Ok(LittleEndian::read_u32(bytes).to_string())
+                }
+            }
             &DbfType::Numeric => {
                 dbf_numeric_to_valid_string(bytes)
             }
-            _ => { unimplemented!() }
+            unsupported => Err(DbfError::ParseError(format!("Cannot read fields of type {:?}", unsupported))),
         }
     }
 }
@@ -202,11 +211,19 @@ fn read_dbf_header(file: &mut io::Read) -> Result<DbfHeader, DbfError> {
             if buf[2] > 12 || buf[3] > 31 {
                 Err(DbfError::ParseError(String::from("The first four bytes of the file mention an invalid creation date. This is not a valid .dbf file.")))
             } else {
-                Ok(DbfHeader {
+                let header = DbfHeader {
                     n_records: LittleEndian::read_u32(&buf[4..]) as usize,
                     n_header_bytes: LittleEndian::read_u16(&buf[8..]) as usize,
                     n_bytes_per_record: LittleEndian::read_u16(&buf[10..]) as usize,
-                })
+                };
+
+                if header.n_header_bytes < DBF_HEADER_LENGTH {
+                    Err(DbfError::ParseError(format!("The header claims to be only {} bytes long. This is not a valid .dbf file.", header.n_header_bytes)))
+                } else if header.n_records > 0 && header.n_bytes_per_record == 0 {
+                    Err(DbfError::ParseError(String::from("The header says records are 0 bytes long. This is not a valid .dbf file.")))
+                } else {
+                    Ok(header)
+                }
             }
         }
     }
@@ -429,7 +446,12 @@ impl<R: io::Read> Iterator for DbfReader<R> {
             None
         } else {
             let ret = read_dbf_record(&mut self.file, self.meta.clone());
-            self.n_records_already_iterated += 1;
+            if ret.is_ok() {
+                self.n_records_already_iterated += 1;
+            } else {
+                // We can't read any further records: stop iterating.
+                self.n_records_already_iterated = self.meta.n_records;
+            }
             Some(ret)
         }
     }
-- 
2.43.0


From 80ac2cc15b76655a0d150ae600b11efbbcc8e2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:20 +0000
Subject: [PATCH 10/13] fix: start self-touching normalized rings at the same
 place every time

A ring may visit its leftmost node several times, and several rings may start
there. Which came first depended on how the input was written.
---
 src/normalize.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/normalize.rs b/src/normalize.rs
index cc550ac..da64cb7 100644
--- a/src/normalize.rs
+++ b/src/normalize.rs
@@ -14,13 +14,13 @@ struct NormRing<T> {
 
 impl<T> PartialOrd for NormRing<T> {
     fn partial_cmp(&self, other: &NormRing<T>) -> Option<Ordering> {
-        Some(self.edges[0].points[0].cmp(&other.edges[0].points[0]))
+        Some(self.cmp(other))
     }
 }
 
 impl<T> Ord for NormRing<T> {
     fn cmp(&self, other: &NormRing<T>) -> Ordering {
-        self.edges[0].points[0].cmp(&other.edges[0].points[0])
+        self.edges[0].points[0 .. 2].cmp(&other.edges[0].points[0 .. 2])
     }
 }
 
@@ -91,9 +91,10 @@ impl<T> Clone for NormEdge<T> {
 }
 
 /// Returns an equivalent "island" edge (i.e., ring) whose first point is the
-/// leftmost/topmost of the input points.
+/// leftmost/topmost of the input points. (If the ring touches itself there, the
+/// second point decides.)
 fn rotate_island_edge<T>(edge: &NormEdge<T>) -> NormEdge<T> {
-    match edge.points.iter().enumerate().min_by_key(|&(_, p)| p) {
+    match edge.points.iter().tuple_windows::<(_, _)>().enumerate().min_by_key(|&(_, segment)| segment) {
         None | Some((0, _)) => { NormEdge { points: edge.points.clone(), regions: edge.regions.clone() } },
         Some((index, _)) => {
             assert!(edge.points[0] == edge.points[edge.points.len() - 1]);
@@ -146,7 +147,8 @@ fn can_join<T>(edge1: &NormEdge<T>, edge2: &NormEdge<T>, point: &Point, degrees:
 }
 
 /// Returns an equivalend set of Edges, rotated so that the first Edge starts
-/// at the leftmost/topmost Node.
+/// at the leftmost/topmost Node. (If the ring touches itself there, the second
+/// point decides.)
 fn rotate_edges<T>(edges: &Vec<NormEdge<T>>, degrees: &Degrees) -> Vec<NormEdge<T>> {
     if edges.len() == 1 {
         if !can_join(&edges[0], &edges[0], &edges[0].points[0], degrees) {
@@ -155,7 +157,7 @@ fn rotate_edges<T>(edges: &Vec<NormEdge<T>>, degrees: &Degrees) -> Vec<NormEdge<
 
         vec![ rotate_island_edge(&edges[0]) ]
     } else {
-        match edges.iter().enumerate().min_by_key(|&(_, e)| e.points[0]) {
+        match edges.iter().enumerate().min_by_key(|&(_, e)| (e.points[0], e.points[1])) {
             None | Some((0, _)) => { edges.clone() }
             Some((index, _)) => {
                 let mut ret = Vec::<NormEdge<T>>::with_capacity(edges.len());
-- 
2.43.0


From b967551ac11760b0f148bf8818985ebaeb6f5b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:01 +0000
Subject: [PATCH 11/13] fix: stop reading .dbf fields at the end-of-fields mark

---
 src/read/shapefile/dbf.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/read/shapefile/dbf.rs b/src/read/shapefile/dbf.rs
index cd6b1cd..09dc494 100644
--- a/src/read/shapefile/dbf.rs
+++ b/src/read/shapefile/dbf.rs
@@ -260,7 +260,9 @@ fn read_dbf_fields(file: &mut io::Read, encoding: encoding::EncodingRef, dbf_hea
             let mut offset = 1; // 0 is "deleted" flag
 
             for chunk in buf.chunks(DBF_FIELD_DESCRIPTOR_LENGTH) {
-                if chunk.len() != DBF_FIELD_DESCRIPTOR_LENGTH {
+                // A terminator (0x0d) ends the descriptors; anything between it
+                // and the first record is not a field.
+                if chunk.len() != DBF_FIELD_DESCRIPTOR_LENGTH || chunk[0] == 0x0d {
                     break;
                 }
 
-- 
2.43.0


From 7b6272faed8269715bc5e7ec7d279efc72505387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:26 +0000
Subject: [PATCH 12/13] fix: merge long outlines in linear time

Finding where a path returns to itself scanned the whole path, edge by edge, so
merging the pieces of a region into one long outline took quadratic time.
---
 src/normalize.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/normalize.rs b/src/normalize.rs
index da64cb7..54a70f2 100644
--- a/src/normalize.rs
+++ b/src/normalize.rs
@@ -393,16 +393,21 @@ fn join_adjacent_rings<T>(rings: &Vec<NormRing<T>>, degrees: &Degrees) -> Vec<No
         let mut from: Option<Point> = None;
 
         let mut path: Vec<NormEdge<T>> = Vec::new();
+        let mut path_index: HashMap<Point, usize> = HashMap::new(); // by first Point
 
         loop {
             let edge = take_edge(&mut to_merge, end, from);
             end = *edge.points.last().unwrap();
             from = Some(edge.points[edge.points.len() - 2]);
+            path_index.insert(edge.points[0], path.len());
             path.push(edge);
 
             // When we're back at a Node, we've reconstructed a ring.
-            if let Some(index) = path.iter().position(|e| e.points[0] == end) {
+            if let Some(&index) = path_index.get(&end) {
                 let mut edges = path.split_off(index);
+                for edge in edges.iter() {
+                    path_index.remove(&edge.points[0]);
+                }
 
                 edges = join_related_edges(&edges, degrees);
                 edges = rotate_edges(&edges, degrees);
-- 
2.43.0


From 6a00cd03c9682fa39b870c02f3e4bd1a64169e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:02 +0000
Subject: [PATCH 13/13] fix: open_ascii reads ASCII, not windows-1252

The WHATWG label "ascii" names windows-1252, so dbf::open_ascii returned e.g. a
euro sign for byte 0x80 instead of an error (and disagreed with
shapefile::open_ascii).
---
 src/read/shapefile/dbf.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/read/shapefile/dbf.rs b/src/read/shapefile/dbf.rs
index 09dc494..e7b4c2a 100644
--- a/src/read/shapefile/dbf.rs
+++ b/src/read/shapefile/dbf.rs
@@ -414,8 +414,7 @@ pub fn open(path: &Path, encoding: encoding::EncodingRef) -> Result<DbfReader<io
 /// }
 /// ```
 pub fn open_ascii(path: &Path) -> Result<DbfReader<io::BufReader<fs::File>>, DbfError> {
-    let ascii = encoding::label::encoding_from_whatwg_label(&"ascii").unwrap();
-    open(path, ascii)
+    open(path, encoding::all::ASCII)
 }
 
 impl<R: io::Read> DbfReader<R> {
-- 
2.43.0

