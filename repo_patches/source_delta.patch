From 3e8eaffe36671a055fdd338d60529c3d3f4eb163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:20 +0000
Subject: [PATCH 01/12] fix: fill_right_convex_edge_event must continue the
 concave fill from the next node

The concave branch restarted fill_right_concave_edge_event at the node itself
instead of at node.next (the left mirror image and the reference poly2tri pass
the neighbour), so fills that build on one another were skipped and the
constrained edge was forced through unfilled front: panics, endless recursion,
stack overflow or overlapping triangles on plain simple polygons, e.g. outer
(8,0.5) (3.5,0) (0,7.5) with the Steiner point (3,2.5).
---
 src/sweeper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sweeper.rs b/src/sweeper.rs
index e0b9341..a843f4d 100644
--- a/src/sweeper.rs
+++ b/src/sweeper.rs
@@ -695,7 +695,7 @@ impl Sweeper<'_> {
         .is_ccw()
         {
             // concave
-            self.fill_right_concave_edge_event(edge, node_id, observer);
+            self.fill_right_concave_edge_event(edge, next_node.get_node_id(), observer);
         } else {
             // convex
             // next above or below edge?
-- 
2.43.0


From 9bedea2a394558564d6c337dec0a8fbae8d804fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:21 +0000
Subject: [PATCH 02/12] fix: decide in_scan_area with the exact orientation
 predicate

The hand-written determinant with an absolute epsilon misjudged near-collinear
and small-coordinate configurations, so flip_edge_event flipped edges of
non-convex quadrilaterals: 'opposing point on constrained edge' panics, stack
overflows and inverted triangles.
---
 src/utils.rs | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 5617e0f..05d07a6 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -60,18 +60,10 @@ pub fn in_circle(pa: Point, pb: Point, pc: Point, pd: Point) -> bool {
     ) > 0.
 }
 
+/// check whether pd is strictly inside the wedge at pa spanned by pb and pc, i.e. whether the
+/// edge (pb, pc) shared by the triangles (pa, pb, pc) and (pd, pc, pb) can be flipped
 pub fn in_scan_area(a: Point, b: Point, c: Point, d: Point) -> bool {
-    let oadb = (a.x - b.x) * (d.y - b.y) - (d.x - b.x) * (a.y - b.y);
-    if oadb >= -Float::EPSILON {
-        return false;
-    }
-
-    let oadc = (a.x - c.x) * (d.y - c.y) - (d.x - c.x) * (a.y - c.y);
-    if oadc <= Float::EPSILON {
-        return false;
-    }
-
-    true
+    orient_2d(a, d, b).is_cw() && orient_2d(a, d, c).is_ccw()
 }
 
 #[derive(Debug, Clone, Copy)]
-- 
2.43.0


From d6871cdfa027dac5bb01d3d76ace582715d3cdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 03/12] fix: should_fill must decide the turn with the exact
 orientation predicate

The rounded cross product of Angle could call a reflex front node a hole, and
filling it inserted a clockwise triangle.
---
 src/sweeper.rs | 4 ++--
 src/utils.rs   | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sweeper.rs b/src/sweeper.rs
index a843f4d..b3bdaaf 100644
--- a/src/sweeper.rs
+++ b/src/sweeper.rs
@@ -442,8 +442,8 @@ impl Sweeper<'_> {
 
         let angle = crate::utils::Angle::new(node.point(), next.point(), prev_node.point());
 
-        if angle.is_negative() {
-            // negative means next -> node -> prev is cw, then it is not a hole
+        if orient_2d(node.point(), next.point(), prev_node.point()).is_cw() {
+            // next -> node -> prev is cw, then it is not a hole
             return true;
         } else if !angle.exceeds_90_degree() {
             // we only fill holes with angle less than PI/2
diff --git a/src/utils.rs b/src/utils.rs
index 05d07a6..c3f0701 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -119,6 +119,7 @@ impl Angle {
     }
 
     /// whether the angle is negative
+    #[cfg(test)]
     pub fn is_negative(&self) -> bool {
         if self.dx == 0. && self.dy == 0. {
             false
-- 
2.43.0


From 8abdb7cb4dbef1b0d327a4733f2c9bf3963fff42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:44 +0000
Subject: [PATCH 04/12] fix: point_event must not treat a point right of the
 front node as below it

The absolute epsilon made every point of a small-coordinate input (or one less
than an epsilon to the right) count as vertically above its left front node;
fill_one then inserted clockwise triangles. locate_node already returns the node
with node.x <= point.x exactly, so equality is the only 'left case'.
---
 src/sweeper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sweeper.rs b/src/sweeper.rs
index b3bdaaf..e539d5b 100644
--- a/src/sweeper.rs
+++ b/src/sweeper.rs
@@ -140,7 +140,7 @@ impl Sweeper<'_> {
 
         // in middle case, the node's x should be less than point'x
         // in left case, they are same.
-        if point.x <= node_point.x + Float::EPSILON {
+        if point.x <= node_point.x {
             self.fill_one(node_id, observer);
         }
 
-- 
2.43.0


From 1cadb601b5527ae7ba112de040e1b73bfc1c21b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 05/12] fix: a steiner point outside of the polyline must not
 empty the result

finalize_polygon looked for the first interior triangle only around the left
most front node. When that node is a steiner point outside of the polyline it
has no constrained edge, the walk found nothing and the result was empty,
although such a point is documented to have no effect. Fall back to searching
from the artificial head.
---
 src/sweeper.rs | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/sweeper.rs b/src/sweeper.rs
index e539d5b..e151448 100644
--- a/src/sweeper.rs
+++ b/src/sweeper.rs
@@ -78,13 +78,43 @@ impl Sweeper<'_> {
             }
         }
 
-        if !t.invalid() {
-            self.clean_mesh(t);
+        if t.invalid() {
+            // the node is a steiner point outside of the polyline, it has no constrained edge
+            t = self.find_interior_triangle()?;
         }
 
+        self.clean_mesh(t);
+
         Some(())
     }
 
+    /// Find a triangle inside the polyline: what is reachable from the artificial head without
+    /// crossing a constrained edge is outside, so the first constrained edge leads inside.
+    fn find_interior_triangle(&self) -> Option<TriangleId> {
+        let mut visited = vec![false; self.triangles.len()];
+        let mut pending = vec![self.advancing_front.nth(0)?.triangle?];
+
+        while let Some(t) = pending.pop() {
+            if std::mem::replace(&mut visited[t.as_usize()], true) {
+                continue;
+            }
+
+            let tri = t.get(&self.triangles);
+            for i in 0..3 {
+                let neighbor = tri.neighbors[i];
+                if neighbor.invalid() {
+                    continue;
+                }
+                if tri.is_constrained(i) {
+                    return Some(neighbor);
+                }
+                pending.push(neighbor);
+            }
+        }
+
+        None
+    }
+
     fn clean_mesh(&mut self, triangle_id: TriangleId) -> Option<()> {
         // id and from, it should not trigger from again
         let mut triangles = Vec::<(TriangleId, TriangleId)>::with_capacity(self.points.len());
-- 
2.43.0


From abc4f39adc6bf7e81a0888692e0876c9c8e76069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:07 +0000
Subject: [PATCH 06/12] fix: bound the stack depth of filling and of forcing a
 constrained edge

fill_*_concave/convex/below_edge_event, fill_basin_req, edge_event_process,
flip_edge_event and flip_scan_edge_event recursed once per visited node or
triangle, so a long front or a long constrained edge overflowed the stack (a
100k point parabola in release, a few thousand points in a debug thread). They
are tail calls; run them as loops.
---
 src/sweeper.rs | 197 ++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 163 insertions(+), 34 deletions(-)

diff --git a/src/sweeper.rs b/src/sweeper.rs
index e151448..54cce04 100644
--- a/src/sweeper.rs
+++ b/src/sweeper.rs
@@ -514,6 +514,16 @@ struct ConstrainedEdge {
     right: bool,
 }
 
+/// how to continue with forcing a constrained edge into the mesh
+enum EdgeEventStep {
+    /// look for the crossing from this triangle
+    Process(TriangleId),
+    /// flip this triangle, it crosses the edge
+    Flip(TriangleId),
+    /// the edge is done
+    Done,
+}
+
 impl ConstrainedEdge {
     fn p_id(&self) -> PointId {
         self.constrained_edge.p
@@ -646,6 +656,16 @@ impl Sweeper<'_> {
         edge: &ConstrainedEdge,
         node_id: NodeId,
         observer: &mut dyn Observer,
+    ) {
+        while self.fill_right_below_edge_event_once(edge, node_id, observer).is_some() {}
+    }
+
+    // returns None if done, otherwise the node has to be retried
+    fn fill_right_below_edge_event_once(
+        &mut self,
+        edge: &ConstrainedEdge,
+        node_id: NodeId,
+        observer: &mut dyn Observer,
     ) -> Option<()> {
         if node_id.point().x >= edge.p.x {
             return None;
@@ -659,24 +679,34 @@ impl Sweeper<'_> {
         if orient_2d(node.point(), next_node.point(), next_next_node.point()).is_ccw() {
             // concave
             self.fill_right_concave_edge_event(edge, node_id, observer);
+            return None;
         } else {
             // convex
             self.fill_right_convex_edge_event(edge, node_id, observer)?;
 
             // retry this one
-            self.fill_right_below_edge_event(edge, node_id, observer);
         }
 
         Some(())
     }
 
-    /// recursively fill concave nodes
+    /// fill concave nodes
     fn fill_right_concave_edge_event(
         &mut self,
         edge: &ConstrainedEdge,
         node_id: NodeId,
         observer: &mut dyn Observer,
     ) {
+        while self.fill_right_concave_edge_event_once(edge, node_id, observer) {}
+    }
+
+    /// fill one concave node, returns whether the next one has to be filled too
+    fn fill_right_concave_edge_event_once(
+        &mut self,
+        edge: &ConstrainedEdge,
+        node_id: NodeId,
+        observer: &mut dyn Observer,
+    ) -> bool {
         let next_id = {
             let next_node = self.advancing_front.locate_next_node(node_id).unwrap();
             let next_id = next_node.get_node_id();
@@ -697,12 +727,14 @@ impl Sweeper<'_> {
                 //  below
                 if orient_2d(node_id.point(), next_id.point(), next_next_node.point()).is_ccw() {
                     // next is concave
-                    self.fill_right_concave_edge_event(edge, node_id, observer);
+                    return true;
                 } else {
                     // next is convex
                 }
             }
         }
+
+        false
     }
 
     // if nothing changed, returns None
@@ -713,6 +745,21 @@ impl Sweeper<'_> {
         node_id: NodeId,
         observer: &mut dyn Observer,
     ) -> Option<()> {
+        let mut node_id = Some(node_id);
+        while let Some(id) = node_id {
+            node_id = self.fill_right_convex_edge_event_once(edge, id, observer)?;
+        }
+
+        Some(())
+    }
+
+    // if nothing changed, returns None, otherwise the node to continue with
+    fn fill_right_convex_edge_event_once(
+        &mut self,
+        edge: &ConstrainedEdge,
+        node_id: NodeId,
+        observer: &mut dyn Observer,
+    ) -> Option<Option<NodeId>> {
         let next_node = self.advancing_front.locate_next_node(node_id).unwrap();
         let next_next_node = next_node.next().unwrap();
         let next_next_next_node = next_next_node.next()?;
@@ -731,13 +778,13 @@ impl Sweeper<'_> {
             // next above or below edge?
             if orient_2d(edge.q, next_next_node.point(), edge.p).is_ccw() {
                 // Below
-                self.fill_right_convex_edge_event(edge, next_node.get_node_id(), observer)?;
+                return Some(Some(next_node.get_node_id()));
             } else {
                 // Above
             }
         }
 
-        Some(())
+        Some(None)
     }
 
     fn fill_left_above_edge_event(
@@ -766,18 +813,28 @@ impl Sweeper<'_> {
         edge: &ConstrainedEdge,
         node_id: NodeId,
         observer: &mut dyn Observer,
+    ) {
+        while self.fill_left_below_edge_event_once(edge, node_id, observer).is_some() {}
+    }
+
+    // returns None if done, otherwise the node has to be retried
+    fn fill_left_below_edge_event_once(
+        &mut self,
+        edge: &ConstrainedEdge,
+        node_id: NodeId,
+        observer: &mut dyn Observer,
     ) -> Option<()> {
         if node_id.point().x > edge.p.x {
             let prev_node = self.advancing_front.locate_prev_node(node_id).unwrap();
             let prev_prev_node = prev_node.prev().unwrap();
             if orient_2d(node_id.point(), prev_node.point(), prev_prev_node.point()).is_cw() {
                 self.fill_left_concave_edge_event(edge, node_id, observer);
+                return None;
             } else {
                 // convex
                 self.fill_left_convex_edge_event(edge, node_id, observer)?;
 
                 // retry this one
-                self.fill_left_below_edge_event(edge, node_id, observer);
             }
             Some(())
         } else {
@@ -793,6 +850,21 @@ impl Sweeper<'_> {
         node_id: NodeId,
         observer: &mut dyn Observer,
     ) -> Option<()> {
+        let mut node_id = Some(node_id);
+        while let Some(id) = node_id {
+            node_id = self.fill_left_convex_edge_event_once(edge, id, observer)?;
+        }
+
+        Some(())
+    }
+
+    // if nothing changed, returns None, otherwise the node to continue with
+    fn fill_left_convex_edge_event_once(
+        &mut self,
+        edge: &ConstrainedEdge,
+        node_id: NodeId,
+        observer: &mut dyn Observer,
+    ) -> Option<Option<NodeId>> {
         // next concave or convex?
         let prev_node = self.advancing_front.locate_prev_node(node_id).unwrap();
         let prev_prev_node = prev_node.prev().unwrap();
@@ -812,20 +884,31 @@ impl Sweeper<'_> {
             // next above or below edge?
             if orient_2d(edge.q, prev_prev_node.point(), edge.p).is_cw() {
                 // below
-                self.fill_left_convex_edge_event(edge, prev_node.get_node_id(), observer)?;
+                return Some(Some(prev_node.get_node_id()));
             } else {
                 // above
             }
         }
-        Some(())
+        Some(None)
     }
 
+    /// fill concave nodes
     fn fill_left_concave_edge_event(
         &mut self,
         edge: &ConstrainedEdge,
         node_id: NodeId,
         observer: &mut dyn Observer,
     ) {
+        while self.fill_left_concave_edge_event_once(edge, node_id, observer) {}
+    }
+
+    /// fill one concave node, returns whether the next one has to be filled too
+    fn fill_left_concave_edge_event_once(
+        &mut self,
+        edge: &ConstrainedEdge,
+        node_id: NodeId,
+        observer: &mut dyn Observer,
+    ) -> bool {
         let prev_node = self.advancing_front.locate_prev_node(node_id).unwrap();
 
         let prev_node_id = prev_node.get_node_id();
@@ -843,12 +926,14 @@ impl Sweeper<'_> {
                 let prev_prev_node = prev_node.prev().unwrap();
                 if orient_2d(node_id.point(), prev_node.point(), prev_prev_node.point()).is_cw() {
                     // next is concave
-                    self.fill_left_concave_edge_event(edge, node_id, observer);
+                    return true;
                 } else {
                     // next is convex
                 }
             }
         }
+
+        false
     }
 
     fn edge_event_process(
@@ -860,10 +945,45 @@ impl Sweeper<'_> {
         p: PointId,
         triangle_ids: &mut Vec<TriangleId>,
     ) {
+        let step = EdgeEventStep::Process(triangle_id);
+        self.force_edge(ep, eq, constrain_edge, step, p, triangle_ids);
+    }
+
+    fn force_edge(
+        &mut self,
+        ep: PointId,
+        eq: PointId,
+        constrain_edge: &ConstrainedEdge,
+        mut step: EdgeEventStep,
+        p: PointId,
+        triangle_ids: &mut Vec<TriangleId>,
+    ) {
+        loop {
+            step = match step {
+                EdgeEventStep::Process(t) => {
+                    self.edge_event_step(ep, eq, constrain_edge, t, p, triangle_ids)
+                }
+                EdgeEventStep::Flip(t) => {
+                    self.flip_edge_event(ep, eq, constrain_edge, t, p, triangle_ids)
+                }
+                EdgeEventStep::Done => return,
+            };
+        }
+    }
+
+    fn edge_event_step(
+        &mut self,
+        ep: PointId,
+        eq: PointId,
+        constrain_edge: &ConstrainedEdge,
+        triangle_id: TriangleId,
+        p: PointId,
+        triangle_ids: &mut Vec<TriangleId>,
+    ) -> EdgeEventStep {
         assert!(!triangle_id.invalid());
 
         if self.try_mark_edge_for_triangle(ep, eq, triangle_id) {
-            return;
+            return EdgeEventStep::Done;
         }
 
         let triangle = self.triangles.get_mut_unchecked(triangle_id);
@@ -887,7 +1007,7 @@ impl Sweeper<'_> {
                     p1,
                     triangle_ids,
                 );
-                return;
+                return EdgeEventStep::Done;
             } else {
                 panic!("EdgeEvent - collinear points not supported")
             }
@@ -913,7 +1033,7 @@ impl Sweeper<'_> {
                     triangle_ids,
                 );
 
-                return;
+                return EdgeEventStep::Done;
             } else {
                 panic!("collinear points not supported");
             }
@@ -928,9 +1048,9 @@ impl Sweeper<'_> {
                 triangle.neighbor_cw(p)
             };
 
-            self.edge_event_process(ep, eq, constrain_edge, triangle_id, p, triangle_ids);
+            EdgeEventStep::Process(triangle_id)
         } else {
-            self.flip_edge_event(ep, eq, constrain_edge, triangle_id, p, triangle_ids);
+            EdgeEventStep::Flip(triangle_id)
         }
     }
 }
@@ -945,7 +1065,7 @@ impl Sweeper<'_> {
         triangle_id: TriangleId,
         p: PointId,
         legalize_queue: &mut Vec<TriangleId>,
-    ) {
+    ) -> EdgeEventStep {
         let t = triangle_id.get(&self.triangles);
         let ot_id = t.neighbor_across(p);
         let ot = ot_id.get(&self.triangles);
@@ -975,6 +1095,7 @@ impl Sweeper<'_> {
                         .get_mut_unchecked(ot_id)
                         .set_constrained_for_edge(ep, eq);
                 }
+                EdgeEventStep::Done
             } else {
                 let o = orient_2d(
                     eq.get(&self.points),
@@ -983,12 +1104,16 @@ impl Sweeper<'_> {
                 );
 
                 let t = Self::next_flip_triangle(o, triangle_id, ot_id, legalize_queue);
-                self.flip_edge_event(ep, eq, edge, t, p, legalize_queue);
+                EdgeEventStep::Flip(t)
             }
         } else {
             let new_p = self.next_flip_point(ep, eq, ot_id, op);
-            self.flip_scan_edge_event(ep, eq, edge, triangle_id, ot_id, new_p, legalize_queue);
-            self.edge_event_process(ep, eq, edge, triangle_id, p, legalize_queue);
+            let mut scan = Some((ot_id, new_p));
+            while let Some((t, p)) = scan {
+                scan =
+                    self.flip_scan_edge_event(ep, eq, edge, triangle_id, t, p, legalize_queue);
+            }
+            EdgeEventStep::Process(triangle_id)
         }
     }
 
@@ -1038,6 +1163,7 @@ impl Sweeper<'_> {
         }
     }
 
+    /// returns the triangle and point to continue the scan with
     fn flip_scan_edge_event(
         &mut self,
         ep: PointId,
@@ -1047,7 +1173,7 @@ impl Sweeper<'_> {
         t_id: TriangleId,
         p: PointId,
         triangle_ids: &mut Vec<TriangleId>,
-    ) {
+    ) -> Option<(TriangleId, PointId)> {
         let t = t_id.get(&self.triangles);
         let ot = t.neighbor_across(p);
         if ot.invalid() {
@@ -1066,7 +1192,7 @@ impl Sweeper<'_> {
             op.get(&self.points),
         ) {
             // flip with new edge op -> eq
-            self.flip_edge_event(eq, op, edge, ot, op, triangle_ids);
+            self.force_edge(eq, op, edge, EdgeEventStep::Flip(ot), op, triangle_ids);
 
             // original comment:
             // TODO: Actually I just figured out that it should be possible to
@@ -1078,8 +1204,10 @@ impl Sweeper<'_> {
             // so it will have to wait.
         } else {
             let new_p = self.next_flip_point(ep, eq, ot, op);
-            self.flip_scan_edge_event(ep, eq, edge, flip_triangle_id, ot, new_p, triangle_ids);
+            return Some((ot, new_p));
         }
+
+        None
     }
 }
 
@@ -1182,26 +1310,27 @@ impl Sweeper<'_> {
         let width = right.point().x - left.point().x;
         let left_higher: bool = left.point().y > right.point().y;
 
-        self.fill_basin_req(
-            bottom.get_node_id(),
-            &Basin {
-                left: left.point(),
-                right: right.point(),
-                width,
-                left_higher,
-            },
-            observer,
-        );
+        let basin = Basin {
+            left: left.point(),
+            right: right.point(),
+            width,
+            left_higher,
+        };
+        let mut node = bottom.get_node_id();
+        while let Some(next_node) = self.fill_basin_req(node, &basin, observer) {
+            node = next_node;
+        }
 
         Some(())
     }
 
+    /// fill one node of the basin, returns the node to continue with
     fn fill_basin_req(
         &mut self,
         node: NodeId,
         basin: &Basin,
         observer: &mut dyn Observer,
-    ) -> Option<()> {
+    ) -> Option<NodeId> {
         if basin.completed(node.point()) {
             return None;
         }
@@ -1211,7 +1340,7 @@ impl Sweeper<'_> {
         let next = fill_one.next;
 
         if prev.point().eq(&basin.left) && next.point().eq(&basin.right) {
-            return Some(());
+            return None;
         }
 
         let new_node = if prev.point().eq(&basin.left) {
@@ -1239,7 +1368,7 @@ impl Sweeper<'_> {
             }
         };
 
-        self.fill_basin_req(new_node, basin, observer)
+        Some(new_node)
     }
 }
 
-- 
2.43.0


From 68221fa414cf95d68c87ff535fb68f06f2d25610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:49 +0000
Subject: [PATCH 07/12] fix: keep the fake points strictly outside of a one ulp
 wide input

0.3 of an extent of one ulp rounds away, the fake tail then shares its x with
real points and locate_node/next fail (unwrap on None).
---
 src/points.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/points.rs b/src/points.rs
index 3f137fb..0216b78 100644
--- a/src/points.rs
+++ b/src/points.rs
@@ -163,6 +163,9 @@ impl Points {
         let (head, tail) = {
             let dx = (xmax - xmin) * 0.3;
             let dy = (ymax - ymin) * 0.3;
+            // the fake points must stay strictly outside after rounding
+            let dx = dx.max(xmin.abs().max(xmax.abs()) * Float::EPSILON);
+            let dy = dy.max(ymin.abs().max(ymax.abs()) * Float::EPSILON);
 
             let head = Point::new(xmin - dx, ymin - dy);
             let head_id = PointId(points.len() as NumType);
-- 
2.43.0


From 28e78c29a4ca818bc4886d96b73d40a36e402984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:04 +0000
Subject: [PATCH 08/12] fix: PlainFileLoader must report malformed input as
 LoaderError

A line that is blank, short or not numeric, and a file that is not UTF-8, hit
unwrap and panicked although load returns a Result.
---
 src/loader.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/loader.rs b/src/loader.rs
index 71684cf..0db931b 100644
--- a/src/loader.rs
+++ b/src/loader.rs
@@ -30,7 +30,7 @@ impl Loader for PlainFileLoader {
     fn load(&mut self, path: &str) -> Result<Builder, LoaderError> {
         let mut f = std::fs::File::options().read(true).open(path)?;
         let mut value = "".to_string();
-        std::io::Read::read_to_string(&mut f, &mut value).unwrap();
+        std::io::Read::read_to_string(&mut f, &mut value)?;
 
         let mut state = ParseState::default();
         let mut polygon = vec![];
@@ -75,10 +75,19 @@ fn parse_point(line: &str) -> Result<Option<Point>, LoaderError> {
         return Ok(None);
     }
     let mut iter = line.split_whitespace();
-    let x = iter.next().unwrap();
-    let y = iter.next().unwrap();
-    let x = x.parse::<Float>().unwrap();
-    let y = y.parse::<Float>().unwrap();
+    let Some(x) = iter.next() else {
+        // blank line
+        return Ok(None);
+    };
+    let y = iter
+        .next()
+        .ok_or_else(|| invalid(format!("missing y coordinate: {line:?}")))?;
+    let x = x.parse::<Float>().map_err(invalid)?;
+    let y = y.parse::<Float>().map_err(invalid)?;
 
     Ok(Some(Point::new(x, y)))
 }
+
+fn invalid(error: impl Into<Box<dyn std::error::Error>>) -> LoaderError {
+    LoaderError::Inner(error.into())
+}
-- 
2.43.0


From 36ef8692505ee28313aa61ff56a1139c16aa701b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:22 +0000
Subject: [PATCH 09/12] fix: the safe TriangleStore lookups must check the id

get, try_get and TriangleId::get are safe and reachable from an Observer with any
TriangleId::from_index value or an id of another run, but read out of bounds.
---
 src/triangles.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/triangles.rs b/src/triangles.rs
index 1d69085..dedce1f 100644
--- a/src/triangles.rs
+++ b/src/triangles.rs
@@ -68,15 +68,13 @@ impl TriangleStore {
     }
 
     pub fn get(&self, id: TriangleId) -> Option<&InnerTriangle> {
-        if id == TriangleId::INVALID {
-            return None;
-        }
-        unsafe { Some(self.triangles.get_unchecked(id.as_usize())) }
+        // `TriangleId::INVALID` is out of range for any store
+        self.triangles.get(id.as_usize())
     }
 
     pub fn get_unchecked(&self, id: TriangleId) -> &InnerTriangle {
         debug_assert!(!id.invalid());
-        unsafe { self.triangles.get_unchecked(id.as_usize()) }
+        &self.triangles[id.as_usize()]
     }
 
     pub fn get_mut(&mut self, id: TriangleId) -> Option<&mut InnerTriangle> {
-- 
2.43.0


From 8f88bdb657728669ff5dd1343fefdadc54bf87e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:41 +0000
Subject: [PATCH 10/12] fix: locate_node left of the head must return None

The front is reachable from an Observer; a point left of the head underflowed the
index and read out of bounds instead of returning None.
---
 src/advancing_front/vec_backed.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/advancing_front/vec_backed.rs b/src/advancing_front/vec_backed.rs
index 7029013..284ba6d 100644
--- a/src/advancing_front/vec_backed.rs
+++ b/src/advancing_front/vec_backed.rs
@@ -200,6 +200,8 @@ impl AdvancingFront {
     pub fn locate_node(&self, point: Point) -> Option<NodeRef> {
         let key = PointKey(point);
         let idx = match self.search_by_key(&key) {
+            // nothing is left of the head
+            Err(0) => return None,
             Err(idx) => idx - 1,
             Ok(idx) => idx,
         };
-- 
2.43.0


From a75d49a9d18829c7edc8b6e27f873154625e0b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:14 +0000
Subject: [PATCH 11/12] fix: PlainFileLoader must report a repeated ring point
 as LoaderError

---
 src/loader.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/loader.rs b/src/loader.rs
index 0db931b..b1b9f92 100644
--- a/src/loader.rs
+++ b/src/loader.rs
@@ -64,6 +64,10 @@ impl Loader for PlainFileLoader {
             }
         }
 
+        for ring in std::iter::once(&polygon).chain(&holes) {
+            check_ring(ring)?;
+        }
+
         Ok(Builder::new(polygon)
             .add_holes(holes)
             .add_steiner_points(steiner_points))
@@ -88,6 +92,17 @@ fn parse_point(line: &str) -> Result<Option<Point>, LoaderError> {
     Ok(Some(Point::new(x, y)))
 }
 
+/// [`Builder`] panics on a ring whose consecutive points are equal
+fn check_ring(ring: &[Point]) -> Result<(), LoaderError> {
+    let next_points = ring.iter().cycle().skip(1);
+    for (point, next_point) in ring.iter().zip(next_points) {
+        if point.eq(next_point) {
+            return Err(invalid(format!("repeated point: {} {}", point.x, point.y)));
+        }
+    }
+    Ok(())
+}
+
 fn invalid(error: impl Into<Box<dyn std::error::Error>>) -> LoaderError {
     LoaderError::Inner(error.into())
 }
-- 
2.43.0


From 7b40892f2a8abb2d9fa76c28cf581f7efe28791e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:48:35 +0000
Subject: [PATCH 12/12] fix: rotating a pair must not hold two references to
 one coinciding neighbor

---
 src/sweeper.rs   | 19 +++++------------
 src/triangles.rs | 54 ------------------------------------------------
 2 files changed, 5 insertions(+), 68 deletions(-)

diff --git a/src/sweeper.rs b/src/sweeper.rs
index 54cce04..f738790 100644
--- a/src/sweeper.rs
+++ b/src/sweeper.rs
@@ -330,20 +330,11 @@ impl Sweeper<'_> {
 
         TriangleStore::mark_neighbor_for_two_mut(t_id, ot_id, t, ot);
 
-        let (t, ot, t_n1, t_n2, t_n3, t_n4) =
-            unsafe { self.triangles.get_mut_six(t_id, ot_id, n1, n2, n3, n4) };
-
-        if let Some(t_n2) = t_n2 {
-            TriangleStore::mark_neighbor_for_two_mut(t_id, n2, t, t_n2);
-        }
-        if let Some(t_n3) = t_n3 {
-            TriangleStore::mark_neighbor_for_two_mut(t_id, n3, t, t_n3);
-        }
-        if let Some(t_n1) = t_n1 {
-            TriangleStore::mark_neighbor_for_two_mut(ot_id, n1, ot, t_n1);
-        }
-        if let Some(t_n4) = t_n4 {
-            TriangleStore::mark_neighbor_for_two_mut(ot_id, n4, ot, t_n4);
+        // one pair at a time: the neighbors of a degenerate pair can coincide
+        for (id, n) in [(t_id, n2), (t_id, n3), (ot_id, n1), (ot_id, n4)] {
+            if !n.invalid() {
+                self.triangles.mark_neighbor(id, n);
+            }
         }
 
         n1.invalid() || n2.invalid() || n3.invalid() || n4.invalid()
diff --git a/src/triangles.rs b/src/triangles.rs
index dedce1f..dedc98a 100644
--- a/src/triangles.rs
+++ b/src/triangles.rs
@@ -101,60 +101,6 @@ impl TriangleStore {
         (ref_0, ref_1)
     }
 
-    pub(crate) unsafe fn get_mut_six(
-        &mut self,
-        id_0: TriangleId,
-        id_1: TriangleId,
-        id_2: TriangleId,
-        id_3: TriangleId,
-        id_4: TriangleId,
-        id_5: TriangleId,
-    ) -> (
-        &mut InnerTriangle,
-        &mut InnerTriangle,
-        Option<&mut InnerTriangle>,
-        Option<&mut InnerTriangle>,
-        Option<&mut InnerTriangle>,
-        Option<&mut InnerTriangle>,
-    ) {
-        assert!(
-            id_0 != id_1
-                && id_0.as_usize() < self.triangles.len()
-                && id_1.as_usize() < self.triangles.len()
-        );
-
-        let slice: *mut InnerTriangle = self.triangles.as_mut_ptr();
-
-        // satefy: asserted that id_0 != id_1 && id_0 < len && id_1 < len
-        let ref_0 = unsafe { &mut *slice.add(id_0.as_usize()) };
-        let ref_1 = unsafe { &mut *slice.add(id_1.as_usize()) };
-        let ref_2 = if !id_2.invalid() {
-            Some(unsafe { &mut *slice.add(id_2.as_usize()) })
-        } else {
-            None
-        };
-
-        let ref_3 = if !id_3.invalid() {
-            Some(unsafe { &mut *slice.add(id_3.as_usize()) })
-        } else {
-            None
-        };
-
-        let ref_4 = if !id_4.invalid() {
-            Some(unsafe { &mut *slice.add(id_4.as_usize()) })
-        } else {
-            None
-        };
-
-        let ref_5 = if !id_5.invalid() {
-            Some(unsafe { &mut *slice.add(id_5.as_usize()) })
-        } else {
-            None
-        };
-
-        (ref_0, ref_1, ref_2, ref_3, ref_4, ref_5)
-    }
-
     pub fn get_mut_unchecked(&mut self, id: TriangleId) -> &mut InnerTriangle {
         unsafe { self.triangles.get_unchecked_mut(id.as_usize()) }
     }
-- 
2.43.0

