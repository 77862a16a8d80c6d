From b4421b50fcc20e1e214de672dd1bb8802c1d2632 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:03:11 +0000
Subject: [PATCH 01/12] fix: fill the concave node after the convex one in
 fill_right_convex_edge_event

The mirrored left method (and the original poly2tri) continue with the next
node. Continuing with the same node fills a convex node, which leads to
inverted triangles, panics and infinite loops.
---
 src/sweeper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sweeper.rs b/src/sweeper.rs
index e0b9341..a843f4d 100644
--- a/src/sweeper.rs
+++ b/src/sweeper.rs
@@ -695,7 +695,7 @@ impl Sweeper<'_> {
         .is_ccw()
         {
             // concave
-            self.fill_right_concave_edge_event(edge, node_id, observer);
+            self.fill_right_concave_edge_event(edge, next_node.get_node_id(), observer);
         } else {
             // convex
             // next above or below edge?
-- 
2.43.0


From 373c324ea7cd211ec6fc055580573a8a58949a13 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:03:13 +0000
Subject: [PATCH 02/12] fix: find the interior from the outside triangles in
 finalize_polygon

The first front node may be a steiner point outside of the polyline, none of
its edges is constrained then and the result was empty.
---
 src/sweeper.rs | 42 ++++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/src/sweeper.rs b/src/sweeper.rs
index a843f4d..5c9a2d4 100644
--- a/src/sweeper.rs
+++ b/src/sweeper.rs
@@ -60,28 +60,34 @@ impl Sweeper<'_> {
 
     pub(crate) fn finalize_polygon(&mut self) -> Option<()> {
         // get an internal triangle to start with
-        // the first node is head, artificial point, so skip
-        let node = self.advancing_front.nth(1)?;
-
-        let mut t = node.triangle?;
-
-        loop {
-            if let Some(tri) = self.triangles.get(t) {
-                if !tri.constrained_edge_cw(node.point_id()) {
-                    t = tri.neighbor_ccw(node.point_id());
-                } else {
-                    break;
+        // head is artificial, so its triangle is outside of the polyline. Walk through
+        // the outside triangles until there is a constrained edge, the triangle across
+        // that edge is internal. Front nodes may be steiner points outside of the polyline,
+        // so it is not enough to check the triangles around one of them.
+        let outside = self.advancing_front.nth(0)?.triangle?;
+
+        let mut visited = vec![false; self.triangles.len()];
+        visited[outside.as_usize()] = true;
+        let mut outside_triangles = vec![outside];
+
+        while let Some(t) = outside_triangles.pop() {
+            let tri = self.triangles.get_unchecked(t);
+            for i in 0..3 {
+                let neighbor = tri.neighbors[i];
+                if neighbor.invalid() {
+                    continue;
+                }
+                if tri.is_constrained(i) {
+                    self.clean_mesh(neighbor);
+                    return Some(());
+                }
+                if !visited[neighbor.as_usize()] {
+                    visited[neighbor.as_usize()] = true;
+                    outside_triangles.push(neighbor);
                 }
-            } else {
-                // no valid triangle found, just break
-                break;
             }
         }
 
-        if !t.invalid() {
-            self.clean_mesh(t);
-        }
-
         Some(())
     }
 
-- 
2.43.0


From b2956439de0c10d2b08d870a5de44e6e3cc919b4 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:03:14 +0000
Subject: [PATCH 03/12] fix: do not fill a node which is cw because of rounding
 in should_fill

The angle is computed in floating point, for nearly collinear nodes rounding
may turn a cw node into a hole to be filled, that creates inverted triangles.
---
 src/sweeper.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/sweeper.rs b/src/sweeper.rs
index 5c9a2d4..e8f408d 100644
--- a/src/sweeper.rs
+++ b/src/sweeper.rs
@@ -448,8 +448,11 @@ impl Sweeper<'_> {
 
         let angle = crate::utils::Angle::new(node.point(), next.point(), prev_node.point());
 
-        if angle.is_negative() {
-            // negative means next -> node -> prev is cw, then it is not a hole
+        if angle.is_negative()
+            || orient_2d(prev_node.point(), node.point(), next.point()).is_cw()
+        {
+            // negative means next -> node -> prev is cw, then it is not a hole. The angle
+            // suffers from rounding, so check with the robust predicate too
             return true;
         } else if !angle.exceeds_90_degree() {
             // we only fill holes with angle less than PI/2
-- 
2.43.0


From 2025eec5334b80c0c7ba9717a5c34b40ba78def3 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:03:16 +0000
Subject: [PATCH 04/12] fix: use the robust predicate in in_scan_area

The fixed epsilon rejects valid points when coordinates are small.
---
 src/utils.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 5617e0f..dfcb2fd 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -61,17 +61,10 @@ pub fn in_circle(pa: Point, pb: Point, pc: Point, pd: Point) -> bool {
 }
 
 pub fn in_scan_area(a: Point, b: Point, c: Point, d: Point) -> bool {
-    let oadb = (a.x - b.x) * (d.y - b.y) - (d.x - b.x) * (a.y - b.y);
-    if oadb >= -Float::EPSILON {
-        return false;
-    }
-
-    let oadc = (a.x - c.x) * (d.y - c.y) - (d.x - c.x) * (a.y - c.y);
-    if oadc <= Float::EPSILON {
-        return false;
-    }
+    let [a, b, c, d] = [a, b, c, d].map(|p| robust::Coord { x: p.x, y: p.y });
 
-    true
+    // a fixed epsilon depends on the scale of coordinates, so use the robust predicate
+    robust::orient2d(a, d, b) < 0. && robust::orient2d(a, d, c) > 0.
 }
 
 #[derive(Debug, Clone, Copy)]
-- 
2.43.0


From f6eddb48dc68a8ac0837e288a0cb20165ed11abc Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:03:17 +0000
Subject: [PATCH 05/12] fix: compare x exactly in point_event

Adding a fixed epsilon fills the front edge for a point which is strictly
inside of it when coordinates are small, that creates inverted triangles.
---
 src/sweeper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sweeper.rs b/src/sweeper.rs
index e8f408d..3bdfa22 100644
--- a/src/sweeper.rs
+++ b/src/sweeper.rs
@@ -146,7 +146,7 @@ impl Sweeper<'_> {
 
         // in middle case, the node's x should be less than point'x
         // in left case, they are same.
-        if point.x <= node_point.x + Float::EPSILON {
+        if point.x <= node_point.x {
             self.fill_one(node_id, observer);
         }
 
-- 
2.43.0


From a73bae94c6e7dc9040ff03327dc56b1d9b29eeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:09:51 +0000
Subject: [PATCH 06/12] fix: return LoaderError for malformed files instead of
 panicking

A blank line with spaces, a missing or malformed coordinate, or invalid utf-8
panicked although load returns a Result.
---
 src/loader.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/loader.rs b/src/loader.rs
index 71684cf..ac24373 100644
--- a/src/loader.rs
+++ b/src/loader.rs
@@ -30,7 +30,7 @@ impl Loader for PlainFileLoader {
     fn load(&mut self, path: &str) -> Result<Builder, LoaderError> {
         let mut f = std::fs::File::options().read(true).open(path)?;
         let mut value = "".to_string();
-        std::io::Read::read_to_string(&mut f, &mut value).unwrap();
+        std::io::Read::read_to_string(&mut f, &mut value)?;
 
         let mut state = ParseState::default();
         let mut polygon = vec![];
@@ -71,14 +71,22 @@ impl Loader for PlainFileLoader {
 }
 
 fn parse_point(line: &str) -> Result<Option<Point>, LoaderError> {
-    if line.is_empty() {
-        return Ok(None);
-    }
     let mut iter = line.split_whitespace();
-    let x = iter.next().unwrap();
-    let y = iter.next().unwrap();
-    let x = x.parse::<Float>().unwrap();
-    let y = y.parse::<Float>().unwrap();
+    let Some(x) = iter.next() else {
+        // blank line
+        return Ok(None);
+    };
+    let Some(y) = iter.next() else {
+        return Err(LoaderError::Inner(
+            format!("missing y coordinate: {line:?}").into(),
+        ));
+    };
+
+    Ok(Some(Point::new(parse_float(x)?, parse_float(y)?)))
+}
 
-    Ok(Some(Point::new(x, y)))
+fn parse_float(value: &str) -> Result<Float, LoaderError> {
+    value
+        .parse::<Float>()
+        .map_err(|e| LoaderError::Inner(e.into()))
 }
-- 
2.43.0


From 4aaf183c4fcc7d9df2ca79cc6b36d8df885ae509 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:34:14 +0000
Subject: [PATCH 07/12] fix: keep the artificial points outside when the extent
 is below the precision

---
 src/points.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/points.rs b/src/points.rs
index 3f137fb..de5bb29 100644
--- a/src/points.rs
+++ b/src/points.rs
@@ -161,8 +161,13 @@ impl Points {
             .collect::<Vec<_>>();
 
         let (head, tail) = {
-            let dx = (xmax - xmin) * 0.3;
-            let dy = (ymax - ymin) * 0.3;
+            // far from the origin 0.3 of the size may be less than the precision of the
+            // coordinates, the artificial points still have to be outside
+            let margin = |min: Float, max: Float| {
+                ((max - min) * 0.3).max(min.abs().max(max.abs()) * (2. * Float::EPSILON))
+            };
+            let dx = margin(xmin, xmax);
+            let dy = margin(ymin, ymax);
 
             let head = Point::new(xmin - dx, ymin - dy);
             let head_id = PointId(points.len() as NumType);
-- 
2.43.0


From 92c1602d34c40f6c9074607e07c64c9af0b17e8d Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 01:02:23 +0000
Subject: [PATCH 08/12] fix: locate_node finds nothing left of the whole front

---
 src/advancing_front/vec_backed.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/advancing_front/vec_backed.rs b/src/advancing_front/vec_backed.rs
index 7029013..b9ad3ea 100644
--- a/src/advancing_front/vec_backed.rs
+++ b/src/advancing_front/vec_backed.rs
@@ -200,7 +200,8 @@ impl AdvancingFront {
     pub fn locate_node(&self, point: Point) -> Option<NodeRef> {
         let key = PointKey(point);
         let idx = match self.search_by_key(&key) {
-            Err(idx) => idx - 1,
+            // nothing is at or left of a point left of the whole front
+            Err(idx) => idx.checked_sub(1)?,
             Ok(idx) => idx,
         };
         // safety: idx is checked
-- 
2.43.0


From a9c9f16831ee838dfe99a6002216d47490992526 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 05:33:32 +0000
Subject: [PATCH 09/12] fix: fill nodes below an edge in loops

The edge event filled concave and convex nodes by recursion, one call per
node: a segment above some ten thousand front nodes overflowed the stack.
---
 src/sweeper.rs | 211 +++++++++++++++++++++++++++----------------------
 1 file changed, 115 insertions(+), 96 deletions(-)

diff --git a/src/sweeper.rs b/src/sweeper.rs
index 3bdfa22..9a5ac34 100644
--- a/src/sweeper.rs
+++ b/src/sweeper.rs
@@ -630,57 +630,62 @@ impl Sweeper<'_> {
             return None;
         }
 
-        let node = self.advancing_front.get_node_with_id(node_id).unwrap();
+        loop {
+            let node = self.advancing_front.get_node_with_id(node_id).unwrap();
 
-        let next_node = node.next().unwrap();
-        let next_next_node = next_node.next().unwrap();
+            let next_node = node.next().unwrap();
+            let next_next_node = next_node.next().unwrap();
+
+            if orient_2d(node.point(), next_node.point(), next_next_node.point()).is_ccw() {
+                // concave
+                self.fill_right_concave_edge_event(edge, node_id, observer);
+                return Some(());
+            }
 
-        if orient_2d(node.point(), next_node.point(), next_next_node.point()).is_ccw() {
-            // concave
-            self.fill_right_concave_edge_event(edge, node_id, observer);
-        } else {
             // convex
             self.fill_right_convex_edge_event(edge, node_id, observer)?;
 
             // retry this one
-            self.fill_right_below_edge_event(edge, node_id, observer);
         }
-
-        Some(())
     }
 
-    /// recursively fill concave nodes
+    /// fill concave nodes
     fn fill_right_concave_edge_event(
         &mut self,
         edge: &ConstrainedEdge,
         node_id: NodeId,
         observer: &mut dyn Observer,
     ) {
-        let next_id = {
-            let next_node = self.advancing_front.locate_next_node(node_id).unwrap();
-            let next_id = next_node.get_node_id();
-            match self.fill_one(next_id, observer) {
-                None => {
-                    // nothing changed
-                    next_id
+        // a loop, as there may be more nodes than the stack has room for
+        loop {
+            let next_id = {
+                let next_node = self.advancing_front.locate_next_node(node_id).unwrap();
+                let next_id = next_node.get_node_id();
+                match self.fill_one(next_id, observer) {
+                    None => {
+                        // nothing changed
+                        next_id
+                    }
+                    Some(fill_one) => fill_one.next,
                 }
-                Some(fill_one) => fill_one.next,
+            };
+
+            if next_id.point_id() == edge.p_id() {
+                break;
             }
-        };
 
-        if next_id.point_id() != edge.p_id() {
             // next above or below edge?
-            if orient_2d(edge.q, next_id.point(), edge.p).is_ccw() {
-                let next_next_node = self.advancing_front.locate_next_node(next_id).unwrap();
+            if !orient_2d(edge.q, next_id.point(), edge.p).is_ccw() {
+                break;
+            }
 
-                //  below
-                if orient_2d(node_id.point(), next_id.point(), next_next_node.point()).is_ccw() {
-                    // next is concave
-                    self.fill_right_concave_edge_event(edge, node_id, observer);
-                } else {
-                    // next is convex
-                }
+            //  below
+            let next_next_node = self.advancing_front.locate_next_node(next_id).unwrap();
+            if !orient_2d(node_id.point(), next_id.point(), next_next_node.point()).is_ccw() {
+                // next is convex
+                break;
             }
+            // next is concave
         }
     }
 
@@ -692,31 +697,34 @@ impl Sweeper<'_> {
         node_id: NodeId,
         observer: &mut dyn Observer,
     ) -> Option<()> {
-        let next_node = self.advancing_front.locate_next_node(node_id).unwrap();
-        let next_next_node = next_node.next().unwrap();
-        let next_next_next_node = next_next_node.next()?;
-        // next concave or convex?
-        if orient_2d(
-            next_node.point(),
-            next_next_node.point(),
-            next_next_next_node.point(),
-        )
-        .is_ccw()
-        {
-            // concave
-            self.fill_right_concave_edge_event(edge, next_node.get_node_id(), observer);
-        } else {
+        let mut node_id = node_id;
+        loop {
+            let next_node = self.advancing_front.locate_next_node(node_id).unwrap();
+            let next_next_node = next_node.next().unwrap();
+            let next_next_next_node = next_next_node.next()?;
+            // next concave or convex?
+            if orient_2d(
+                next_node.point(),
+                next_next_node.point(),
+                next_next_next_node.point(),
+            )
+            .is_ccw()
+            {
+                // concave
+                self.fill_right_concave_edge_event(edge, next_node.get_node_id(), observer);
+                return Some(());
+            }
+
             // convex
             // next above or below edge?
-            if orient_2d(edge.q, next_next_node.point(), edge.p).is_ccw() {
-                // Below
-                self.fill_right_convex_edge_event(edge, next_node.get_node_id(), observer)?;
-            } else {
+            if !orient_2d(edge.q, next_next_node.point(), edge.p).is_ccw() {
                 // Above
+                return Some(());
             }
-        }
 
-        Some(())
+            // Below
+            node_id = next_node.get_node_id();
+        }
     }
 
     fn fill_left_above_edge_event(
@@ -746,21 +754,22 @@ impl Sweeper<'_> {
         node_id: NodeId,
         observer: &mut dyn Observer,
     ) -> Option<()> {
-        if node_id.point().x > edge.p.x {
+        if node_id.point().x <= edge.p.x {
+            return None;
+        }
+
+        loop {
             let prev_node = self.advancing_front.locate_prev_node(node_id).unwrap();
             let prev_prev_node = prev_node.prev().unwrap();
             if orient_2d(node_id.point(), prev_node.point(), prev_prev_node.point()).is_cw() {
                 self.fill_left_concave_edge_event(edge, node_id, observer);
-            } else {
-                // convex
-                self.fill_left_convex_edge_event(edge, node_id, observer)?;
-
-                // retry this one
-                self.fill_left_below_edge_event(edge, node_id, observer);
+                return Some(());
             }
-            Some(())
-        } else {
-            None
+
+            // convex
+            self.fill_left_convex_edge_event(edge, node_id, observer)?;
+
+            // retry this one
         }
     }
 
@@ -772,31 +781,35 @@ impl Sweeper<'_> {
         node_id: NodeId,
         observer: &mut dyn Observer,
     ) -> Option<()> {
-        // next concave or convex?
-        let prev_node = self.advancing_front.locate_prev_node(node_id).unwrap();
-        let prev_prev_node = prev_node.prev().unwrap();
-        let prev_prev_prev_node = prev_prev_node.prev()?;
+        let mut node_id = node_id;
+        loop {
+            // next concave or convex?
+            let prev_node = self.advancing_front.locate_prev_node(node_id).unwrap();
+            let prev_prev_node = prev_node.prev().unwrap();
+            let prev_prev_prev_node = prev_prev_node.prev()?;
+
+            if orient_2d(
+                prev_node.point(),
+                prev_prev_node.point(),
+                prev_prev_prev_node.point(),
+            )
+            .is_cw()
+            {
+                // concave
+                self.fill_left_concave_edge_event(edge, prev_node.get_node_id(), observer);
+                return Some(());
+            }
 
-        if orient_2d(
-            prev_node.point(),
-            prev_prev_node.point(),
-            prev_prev_prev_node.point(),
-        )
-        .is_cw()
-        {
-            // concave
-            self.fill_left_concave_edge_event(edge, prev_node.get_node_id(), observer);
-        } else {
             // convex
             // next above or below edge?
-            if orient_2d(edge.q, prev_prev_node.point(), edge.p).is_cw() {
-                // below
-                self.fill_left_convex_edge_event(edge, prev_node.get_node_id(), observer)?;
-            } else {
+            if !orient_2d(edge.q, prev_prev_node.point(), edge.p).is_cw() {
                 // above
+                return Some(());
             }
+
+            // below
+            node_id = prev_node.get_node_id();
         }
-        Some(())
     }
 
     fn fill_left_concave_edge_event(
@@ -805,28 +818,34 @@ impl Sweeper<'_> {
         node_id: NodeId,
         observer: &mut dyn Observer,
     ) {
-        let prev_node = self.advancing_front.locate_prev_node(node_id).unwrap();
+        // a loop, as there may be more nodes than the stack has room for
+        loop {
+            let prev_node = self.advancing_front.locate_prev_node(node_id).unwrap();
 
-        let prev_node_id = prev_node.get_node_id();
+            let prev_node_id = prev_node.get_node_id();
 
-        let prev_node_id = match self.fill_one(prev_node_id, observer) {
-            Some(fill_one) => fill_one.prev,
-            None => prev_node_id,
-        };
+            let prev_node_id = match self.fill_one(prev_node_id, observer) {
+                Some(fill_one) => fill_one.prev,
+                None => prev_node_id,
+            };
+
+            if prev_node_id.point_id() == edge.p_id() {
+                break;
+            }
 
-        if prev_node_id.point_id() != edge.p_id() {
             // next above or below edge?
-            if orient_2d(edge.q, prev_node_id.point(), edge.p).is_cw() {
-                let prev_node = self.advancing_front.get_node_with_id(prev_node_id).unwrap();
-                // below
-                let prev_prev_node = prev_node.prev().unwrap();
-                if orient_2d(node_id.point(), prev_node.point(), prev_prev_node.point()).is_cw() {
-                    // next is concave
-                    self.fill_left_concave_edge_event(edge, node_id, observer);
-                } else {
-                    // next is convex
-                }
+            if !orient_2d(edge.q, prev_node_id.point(), edge.p).is_cw() {
+                break;
+            }
+
+            // below
+            let prev_node = self.advancing_front.get_node_with_id(prev_node_id).unwrap();
+            let prev_prev_node = prev_node.prev().unwrap();
+            if !orient_2d(node_id.point(), prev_node.point(), prev_prev_node.point()).is_cw() {
+                // next is convex
+                break;
             }
+            // next is concave
         }
     }
 
-- 
2.43.0


From f9e3df5348941043afac8e312f51055123114db7 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 05:39:23 +0000
Subject: [PATCH 10/12] fix: turn and flip towards an edge in loops

Each turn around the upper end of a segment and each flip was a recursive
call. Optimized builds mostly make loops of them, others overflowed the
stack with some ten thousand triangles along a segment.
---
 src/sweeper.rs | 283 ++++++++++++++++++++++++++-----------------------
 1 file changed, 150 insertions(+), 133 deletions(-)

diff --git a/src/sweeper.rs b/src/sweeper.rs
index 9a5ac34..361c00f 100644
--- a/src/sweeper.rs
+++ b/src/sweeper.rs
@@ -858,83 +858,91 @@ impl Sweeper<'_> {
         p: PointId,
         triangle_ids: &mut Vec<TriangleId>,
     ) {
-        assert!(!triangle_id.invalid());
-
-        if self.try_mark_edge_for_triangle(ep, eq, triangle_id) {
-            return;
-        }
-
-        let triangle = self.triangles.get_mut_unchecked(triangle_id);
-        let p1 = triangle.point_ccw(p);
-        let o1 = orient_2d(
-            eq.get(&self.points),
-            p1.get(&self.points),
-            ep.get(&self.points),
-        );
+        let mut triangle_id = triangle_id;
+        // a loop, as there may be more triangles than the stack has room for
+        loop {
+            assert!(!triangle_id.invalid());
 
-        if o1.is_collinear() {
-            if let Some(edge_index) = triangle.edge_index(eq, p1) {
-                triangle.set_constrained(edge_index, true);
-
-                let neighbor_across_t = triangle.neighbor_across(p);
-                self.edge_event_process(
-                    ep,
-                    p1,
-                    &constrain_edge.with_q(p1, self),
-                    neighbor_across_t,
-                    p1,
-                    triangle_ids,
-                );
+            if self.try_mark_edge_for_triangle(ep, eq, triangle_id) {
                 return;
-            } else {
-                panic!("EdgeEvent - collinear points not supported")
             }
-        }
 
-        let p2 = triangle.point_cw(p);
-        let o2 = orient_2d(
-            eq.get(&self.points),
-            p2.get(&self.points),
-            ep.get(&self.points),
-        );
-        if o2.is_collinear() {
-            if let Some(edge_index) = triangle.edge_index(eq, p2) {
-                triangle.set_constrained(edge_index, true);
-
-                let neighbor_across_t = triangle.neighbor_across(p);
-                self.edge_event_process(
-                    ep,
-                    p2,
-                    &constrain_edge.with_q(p2, self),
-                    neighbor_across_t,
-                    p2,
-                    triangle_ids,
-                );
+            let triangle = self.triangles.get_mut_unchecked(triangle_id);
+            let p1 = triangle.point_ccw(p);
+            let o1 = orient_2d(
+                eq.get(&self.points),
+                p1.get(&self.points),
+                ep.get(&self.points),
+            );
+
+            if o1.is_collinear() {
+                if let Some(edge_index) = triangle.edge_index(eq, p1) {
+                    triangle.set_constrained(edge_index, true);
+
+                    let neighbor_across_t = triangle.neighbor_across(p);
+                    self.edge_event_process(
+                        ep,
+                        p1,
+                        &constrain_edge.with_q(p1, self),
+                        neighbor_across_t,
+                        p1,
+                        triangle_ids,
+                    );
+                    return;
+                } else {
+                    panic!("EdgeEvent - collinear points not supported")
+                }
+            }
 
-                return;
-            } else {
-                panic!("collinear points not supported");
+            let p2 = triangle.point_cw(p);
+            let o2 = orient_2d(
+                eq.get(&self.points),
+                p2.get(&self.points),
+                ep.get(&self.points),
+            );
+            if o2.is_collinear() {
+                if let Some(edge_index) = triangle.edge_index(eq, p2) {
+                    triangle.set_constrained(edge_index, true);
+
+                    let neighbor_across_t = triangle.neighbor_across(p);
+                    self.edge_event_process(
+                        ep,
+                        p2,
+                        &constrain_edge.with_q(p2, self),
+                        neighbor_across_t,
+                        p2,
+                        triangle_ids,
+                    );
+
+                    return;
+                } else {
+                    panic!("collinear points not supported");
+                }
             }
-        }
 
-        if o1 == o2 {
-            // need to decide if we are rotating cw or ccw to get to a triangle
-            // that will cross edge
-            let triangle_id = if o1.is_cw() {
-                triangle.neighbor_ccw(p)
+            if o1 == o2 {
+                // need to decide if we are rotating cw or ccw to get to a triangle
+                // that will cross edge
+                triangle_id = if o1.is_cw() {
+                    triangle.neighbor_ccw(p)
+                } else {
+                    triangle.neighbor_cw(p)
+                };
             } else {
-                triangle.neighbor_cw(p)
-            };
-
-            self.edge_event_process(ep, eq, constrain_edge, triangle_id, p, triangle_ids);
-        } else {
-            self.flip_edge_event(ep, eq, constrain_edge, triangle_id, p, triangle_ids);
+                let rest =
+                    self.flip_edge_event(ep, eq, constrain_edge, triangle_id, p, triangle_ids);
+                match rest {
+                    Some(rest) => triangle_id = rest,
+                    None => return,
+                }
+            }
         }
     }
 }
 
 /// flip edge related methods
 impl Sweeper<'_> {
+    /// returns the triangle to go on with in `edge_event_process`, `None` if the edge is done
     fn flip_edge_event(
         &mut self,
         ep: PointId,
@@ -943,50 +951,53 @@ impl Sweeper<'_> {
         triangle_id: TriangleId,
         p: PointId,
         legalize_queue: &mut Vec<TriangleId>,
-    ) {
-        let t = triangle_id.get(&self.triangles);
-        let ot_id = t.neighbor_across(p);
-        let ot = ot_id.get(&self.triangles);
-        let op = ot.opposite_point(t, p);
-
-        if in_scan_area(
-            p.get(&self.points),
-            t.point_ccw(p).get(&self.points),
-            t.point_cw(p).get(&self.points),
-            op.get(&self.points),
-        ) {
-            // lets rotate shared edge one vertex cw
-            if self.rotate_triangle_pair(triangle_id, p, ot_id, op) {
-                self.map_triangle_to_nodes(triangle_id);
-                self.map_triangle_to_nodes(ot_id);
-            }
-            // legalize later
-            legalize_queue.extend([triangle_id, ot_id]);
-
-            if p == eq && op == ep {
-                if eq == edge.q_id() && ep == edge.p_id() {
-                    self.triangles
-                        .get_mut_unchecked(triangle_id)
-                        .set_constrained_for_edge(ep, eq);
-
-                    self.triangles
-                        .get_mut_unchecked(ot_id)
-                        .set_constrained_for_edge(ep, eq);
+    ) -> Option<TriangleId> {
+        let mut triangle_id = triangle_id;
+        loop {
+            let t = triangle_id.get(&self.triangles);
+            let ot_id = t.neighbor_across(p);
+            let ot = ot_id.get(&self.triangles);
+            let op = ot.opposite_point(t, p);
+
+            if in_scan_area(
+                p.get(&self.points),
+                t.point_ccw(p).get(&self.points),
+                t.point_cw(p).get(&self.points),
+                op.get(&self.points),
+            ) {
+                // lets rotate shared edge one vertex cw
+                if self.rotate_triangle_pair(triangle_id, p, ot_id, op) {
+                    self.map_triangle_to_nodes(triangle_id);
+                    self.map_triangle_to_nodes(ot_id);
                 }
-            } else {
-                let o = orient_2d(
-                    eq.get(&self.points),
-                    op.get(&self.points),
-                    ep.get(&self.points),
-                );
+                // legalize later
+                legalize_queue.extend([triangle_id, ot_id]);
+
+                if p == eq && op == ep {
+                    if eq == edge.q_id() && ep == edge.p_id() {
+                        self.triangles
+                            .get_mut_unchecked(triangle_id)
+                            .set_constrained_for_edge(ep, eq);
+
+                        self.triangles
+                            .get_mut_unchecked(ot_id)
+                            .set_constrained_for_edge(ep, eq);
+                    }
+                    return None;
+                } else {
+                    let o = orient_2d(
+                        eq.get(&self.points),
+                        op.get(&self.points),
+                        ep.get(&self.points),
+                    );
 
-                let t = Self::next_flip_triangle(o, triangle_id, ot_id, legalize_queue);
-                self.flip_edge_event(ep, eq, edge, t, p, legalize_queue);
+                    triangle_id = Self::next_flip_triangle(o, triangle_id, ot_id, legalize_queue);
+                }
+            } else {
+                let new_p = self.next_flip_point(ep, eq, ot_id, op);
+                self.flip_scan_edge_event(ep, eq, edge, triangle_id, ot_id, new_p, legalize_queue);
+                return Some(triangle_id);
             }
-        } else {
-            let new_p = self.next_flip_point(ep, eq, ot_id, op);
-            self.flip_scan_edge_event(ep, eq, edge, triangle_id, ot_id, new_p, legalize_queue);
-            self.edge_event_process(ep, eq, edge, triangle_id, p, legalize_queue);
         }
     }
 
@@ -1046,37 +1057,43 @@ impl Sweeper<'_> {
         p: PointId,
         triangle_ids: &mut Vec<TriangleId>,
     ) {
-        let t = t_id.get(&self.triangles);
-        let ot = t.neighbor_across(p);
-        if ot.invalid() {
-            panic!("flip_scan_edge_event - null neighbor across");
-        }
+        let (mut t_id, mut p) = (t_id, p);
+        loop {
+            let t = t_id.get(&self.triangles);
+            let ot = t.neighbor_across(p);
+            if ot.invalid() {
+                panic!("flip_scan_edge_event - null neighbor across");
+            }
 
-        let op = ot.get(&self.triangles).opposite_point(t, p);
-        let flip_triangle = flip_triangle_id.get(&self.triangles);
-        let p1 = flip_triangle.point_ccw(eq);
-        let p2 = flip_triangle.point_cw(eq);
+            let op = ot.get(&self.triangles).opposite_point(t, p);
+            let flip_triangle = flip_triangle_id.get(&self.triangles);
+            let p1 = flip_triangle.point_ccw(eq);
+            let p2 = flip_triangle.point_cw(eq);
+
+            if in_scan_area(
+                eq.get(&self.points),
+                p1.get(&self.points),
+                p2.get(&self.points),
+                op.get(&self.points),
+            ) {
+                // flip with new edge op -> eq
+                if let Some(t) = self.flip_edge_event(eq, op, edge, ot, op, triangle_ids) {
+                    self.edge_event_process(eq, op, edge, t, op, triangle_ids);
+                }
 
-        if in_scan_area(
-            eq.get(&self.points),
-            p1.get(&self.points),
-            p2.get(&self.points),
-            op.get(&self.points),
-        ) {
-            // flip with new edge op -> eq
-            self.flip_edge_event(eq, op, edge, ot, op, triangle_ids);
-
-            // original comment:
-            // TODO: Actually I just figured out that it should be possible to
-            //       improve this by getting the next ot and op before the the above
-            //       flip and continue the flipScanEdgeEvent here
-            // set new ot and op here and loop back to inScanArea test
-            // also need to set a new flip_triangle first
-            // Turns out at first glance that this is somewhat complicated
-            // so it will have to wait.
-        } else {
-            let new_p = self.next_flip_point(ep, eq, ot, op);
-            self.flip_scan_edge_event(ep, eq, edge, flip_triangle_id, ot, new_p, triangle_ids);
+                // original comment:
+                // TODO: Actually I just figured out that it should be possible to
+                //       improve this by getting the next ot and op before the the above
+                //       flip and continue the flipScanEdgeEvent here
+                // set new ot and op here and loop back to inScanArea test
+                // also need to set a new flip_triangle first
+                // Turns out at first glance that this is somewhat complicated
+                // so it will have to wait.
+                return;
+            } else {
+                p = self.next_flip_point(ep, eq, ot, op);
+                t_id = ot;
+            }
         }
     }
 }
-- 
2.43.0


From 01f3ecdc20f8191b79dcd192cede23a8359e2fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 06:05:35 +0000
Subject: [PATCH 11/12] fix: TriangleStore::get checks the id

It returns an Option but read outside of the store for any id past its end,
which an observer gets by keeping an id of another run or from_index.
---
 src/triangles.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/triangles.rs b/src/triangles.rs
index 1d69085..0827f5a 100644
--- a/src/triangles.rs
+++ b/src/triangles.rs
@@ -68,10 +68,8 @@ impl TriangleStore {
     }
 
     pub fn get(&self, id: TriangleId) -> Option<&InnerTriangle> {
-        if id == TriangleId::INVALID {
-            return None;
-        }
-        unsafe { Some(self.triangles.get_unchecked(id.as_usize())) }
+        // ids come from outside too, e.g. from an observer that kept one of another run
+        self.triangles.get(id.as_usize())
     }
 
     pub fn get_unchecked(&self, id: TriangleId) -> &InnerTriangle {
-- 
2.43.0


From 5c4e6e0d8bf7f1966838c4a78715b9a84b226f8a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 06:32:08 +0000
Subject: [PATCH 12/12] fix: fill basins in a loop

---
 src/sweeper.rs | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/sweeper.rs b/src/sweeper.rs
index 361c00f..c52be88 100644
--- a/src/sweeper.rs
+++ b/src/sweeper.rs
@@ -1197,26 +1197,29 @@ impl Sweeper<'_> {
         let width = right.point().x - left.point().x;
         let left_higher: bool = left.point().y > right.point().y;
 
-        self.fill_basin_req(
-            bottom.get_node_id(),
-            &Basin {
-                left: left.point(),
-                right: right.point(),
-                width,
-                left_higher,
-            },
-            observer,
-        );
+        let basin = Basin {
+            left: left.point(),
+            right: right.point(),
+            width,
+            left_higher,
+        };
+
+        // a loop, as there may be more nodes than the stack has room for
+        let mut node = Some(bottom.get_node_id());
+        while let Some(node_id) = node {
+            node = self.fill_basin_node(node_id, &basin, observer);
+        }
 
         Some(())
     }
 
-    fn fill_basin_req(
+    /// fill one node of the basin, returns the node to go on with
+    fn fill_basin_node(
         &mut self,
         node: NodeId,
         basin: &Basin,
         observer: &mut dyn Observer,
-    ) -> Option<()> {
+    ) -> Option<NodeId> {
         if basin.completed(node.point()) {
             return None;
         }
@@ -1226,7 +1229,7 @@ impl Sweeper<'_> {
         let next = fill_one.next;
 
         if prev.point().eq(&basin.left) && next.point().eq(&basin.right) {
-            return Some(());
+            return None;
         }
 
         let new_node = if prev.point().eq(&basin.left) {
@@ -1254,7 +1257,7 @@ impl Sweeper<'_> {
             }
         };
 
-        self.fill_basin_req(new_node, basin, observer)
+        Some(new_node)
     }
 }
 
-- 
2.43.0

