From 399e7a1817c7ab5b31a5762416fb9daca9d84a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:12 +0000
Subject: [PATCH 1/9] fix: collect every hazard present in a quadtree node, not
 only the strongest fully present one

QTNode::collect_collisions stopped at a node as soon as one hazard covered it
entirely, so hazards overlapping that one in the node were never reported.
---
 jagua-rs/src/collision_detection/quadtree/qt_node.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jagua-rs/src/collision_detection/quadtree/qt_node.rs b/jagua-rs/src/collision_detection/quadtree/qt_node.rs
index 5a15332..2f1b7a3 100644
--- a/jagua-rs/src/collision_detection/quadtree/qt_node.rs
+++ b/jagua-rs/src/collision_detection/quadtree/qt_node.rs
@@ -186,7 +186,11 @@ impl QTNode {
                 false => (),
                 true => match strongest_hazard.presence {
                     QTHazPresence::None => (),
-                    QTHazPresence::Entire => detected.push(strongest_hazard.entity),
+                    QTHazPresence::Entire => {
+                        detected.push(strongest_hazard.entity);
+                        //other hazards can be present in this node as well, continue with the next strongest
+                        self.collect_collisions(entity, detected)
+                    }
                     QTHazPresence::Partial(_) => match &self.children {
                         Some(children) => {
                             //Check if any of the children intersect with the entity
-- 
2.43.0


From a3d55e73652a7ebeb35ea48d2e1d0c44e463a1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:49 +0000
Subject: [PATCH 2/9] fix: break ties on the y coordinate when sorting points
 for the convex hull

The monotone chain needs a lexicographic order: with several points sharing an
extreme x coordinate, hull vertices were dropped depending on the input order.
---
 jagua-rs/src/geometry/convex_hull.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jagua-rs/src/geometry/convex_hull.rs b/jagua-rs/src/geometry/convex_hull.rs
index 86f8bab..a74c76c 100644
--- a/jagua-rs/src/geometry/convex_hull.rs
+++ b/jagua-rs/src/geometry/convex_hull.rs
@@ -31,10 +31,10 @@ pub fn convex_hull_from_shapes<'a>(
 pub fn convex_hull_from_points(mut points: Vec<Point>) -> Vec<Point> {
     //https://en.wikibooks.org/wiki/Algorithm_Implementation/Geometry/Convex_hull/Monotone_chain
 
-    //sort the points by x coordinate
+    //sort the points by x coordinate, ties are broken by y coordinate
     points.sort_by(|a, b| {
-        let (a_x, b_x) = (a.0, b.0);
-        a_x.partial_cmp(&b_x).unwrap()
+        let (a, b) = ((a.0, a.1), (b.0, b.1));
+        a.partial_cmp(&b).unwrap()
     });
 
     let mut lower_hull = points
-- 
2.43.0


From fdfacfaa99288d5223942c22974764bf3cc9c554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:41:30 +0000
Subject: [PATCH 3/9] fix: generate the piers' rays relative to the centroid of
 the shape

The rays were offset by the absolute position of the bounding box on top of the
centroid and rotated around the origin, so shapes not centred on the origin got
rays that miss them, ending in 'No ray found'.
---
 jagua-rs/src/geometry/fail_fast/piers.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/jagua-rs/src/geometry/fail_fast/piers.rs b/jagua-rs/src/geometry/fail_fast/piers.rs
index d2669ad..5c46af6 100644
--- a/jagua-rs/src/geometry/fail_fast/piers.rs
+++ b/jagua-rs/src/geometry/fail_fast/piers.rs
@@ -27,13 +27,14 @@ pub fn generate(shape: &SimplePolygon, n: usize, poles: &[Circle]) -> Vec<Edge>
     let bbox = shape.bbox();
     let expanded_bbox = bbox.clone().inflate_to_square();
     let centroid = shape.centroid();
-    //vertical ray from the centroid
+    //vertical ray from the origin, moved to the shape by the transformations
     let base_ray = Edge::new(
-        Point(centroid.0, centroid.1 - 2.0 * expanded_bbox.height()),
-        Point(centroid.0, centroid.1 + 2.0 * expanded_bbox.height()),
+        Point(0.0, -2.0 * expanded_bbox.height()),
+        Point(0.0, 2.0 * expanded_bbox.height()),
     );
 
-    let transformations = generate_ray_transformations(&expanded_bbox, RAYS_PER_ANGLE, N_ANGLES);
+    let transformations =
+        generate_ray_transformations(&expanded_bbox, centroid, RAYS_PER_ANGLE, N_ANGLES);
 
     //transform the base edge by each transformation
     let rays = transformations
@@ -90,27 +91,28 @@ pub fn generate(shape: &SimplePolygon, n: usize, poles: &[Circle]) -> Vec<Edge>
 
 fn generate_ray_transformations(
     bbox: &AARectangle,
+    centroid: Point,
     rays_per_angle: usize,
     n_angles: usize,
 ) -> Vec<Transformation> {
-    //translations
+    //translations, relative to the centroid
     let dx = bbox.width() / rays_per_angle as fsize;
     let translations = (0..rays_per_angle)
-        .map(|i| bbox.x_min + dx * i as fsize)
+        .map(|i| bbox.x_min - centroid.0 + dx * i as fsize)
         .map(|x| Transformation::from_translation((x, 0.0)))
         .collect_vec();
 
     let angles = Array::linspace(0.0, fsize::PI(), n_angles + 1).to_vec();
     let angles_slice = &angles[0..n_angles]; //skip the last angle, which is the same as the first
 
-    //rotate the translations by each angle
+    //rotate the translations by each angle around the centroid
     angles_slice
         .iter()
         .flat_map(|angle| {
             translations
                 .iter()
                 .cloned()
-                .map(move |translation| translation.rotate(*angle))
+                .map(move |translation| translation.rotate_translate(*angle, centroid.into()))
         })
         .collect_vec()
 }
-- 
2.43.0


From 31c34d046e9791d2a0c0d4354b4c9498abde13f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:15 +0000
Subject: [PATCH 4/9] fix: discard clipped rays that lie outside the shape when
 generating piers

A ray through a vertex yields that point twice, which shifts the pairing of the
intersections and turned exterior segments into piers.
---
 jagua-rs/src/geometry/fail_fast/piers.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jagua-rs/src/geometry/fail_fast/piers.rs b/jagua-rs/src/geometry/fail_fast/piers.rs
index 5c46af6..4b27b5b 100644
--- a/jagua-rs/src/geometry/fail_fast/piers.rs
+++ b/jagua-rs/src/geometry/fail_fast/piers.rs
@@ -144,6 +144,8 @@ fn clip(shape: &SimplePolygon, ray: &Edge) -> Vec<Edge> {
                 None
             }
         })
+        //a ray passing through a vertex intersects two edges there, discard any clip this puts outside the shape
+        .filter(|clip| shape.collides_with(&clip.centroid()))
         .collect_vec();
 
     clipped_lines
-- 
2.43.0


From fb2515d36ec54c740046e2ed2e6c7e941ef69cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:30 +0000
Subject: [PATCH 5/9] fix: avoid usize underflow when restoring a solution with
 more items than demanded

Missing quantities may be negative, but restore_to_solution subtracted the
unsigned quantities before converting them.
---
 jagua-rs/src/entities/problems/bin_packing.rs   | 3 ++-
 jagua-rs/src/entities/problems/strip_packing.rs | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/jagua-rs/src/entities/problems/bin_packing.rs b/jagua-rs/src/entities/problems/bin_packing.rs
index 2b26a5c..0c0192a 100644
--- a/jagua-rs/src/entities/problems/bin_packing.rs
+++ b/jagua-rs/src/entities/problems/bin_packing.rs
@@ -287,7 +287,8 @@ impl ProblemGeneric for BPProblem {
             .iter_mut()
             .enumerate()
             .for_each(|(i, missing_qty)| {
-                *missing_qty = (self.instance.item_qty(i) - solution.placed_item_qtys[i]) as isize
+                *missing_qty =
+                    self.instance.item_qty(i) as isize - solution.placed_item_qtys[i] as isize
             });
 
         self.bin_qtys.clone_from_slice(&solution.bin_qtys);
diff --git a/jagua-rs/src/entities/problems/strip_packing.rs b/jagua-rs/src/entities/problems/strip_packing.rs
index f941a91..44dd0ef 100644
--- a/jagua-rs/src/entities/problems/strip_packing.rs
+++ b/jagua-rs/src/entities/problems/strip_packing.rs
@@ -247,7 +247,7 @@ impl ProblemGeneric for SPProblem {
             .iter_mut()
             .enumerate()
             .for_each(|(i, qty)| {
-                *qty = (self.instance.item_qty(i) - solution.placed_item_qtys[i]) as isize
+                *qty = self.instance.item_qty(i) as isize - solution.placed_item_qtys[i] as isize
             });
 
         debug_assert!(assertions::problem_matches_solution(self, solution));
-- 
2.43.0


From bed4f3ffce634b0340d92981c7949e1112fde6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:11 +0000
Subject: [PATCH 6/9] fix: process pending deregisters together with an
 immediate one in the hazard proximity grid

---
 .../collision_detection/hpg/hazard_proximity_grid.rs   | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/jagua-rs/src/collision_detection/hpg/hazard_proximity_grid.rs b/jagua-rs/src/collision_detection/hpg/hazard_proximity_grid.rs
index 7786c29..fb666d7 100644
--- a/jagua-rs/src/collision_detection/hpg/hazard_proximity_grid.rs
+++ b/jagua-rs/src/collision_detection/hpg/hazard_proximity_grid.rs
@@ -1,5 +1,4 @@
 use std::fmt::{Display, Formatter};
-use std::iter;
 
 use itertools::Itertools;
 
@@ -117,12 +116,11 @@ impl HazardProximityGrid {
     ) where
         I: Iterator<Item = &'a Hazard> + Clone,
     {
+        self.uncommitted_deregisters.push(to_deregister);
         if process_now {
-            for cell in self.grid.cells.iter_mut().flatten() {
-                cell.deregister_hazards(iter::once(to_deregister), remaining.clone());
-            }
-        } else {
-            self.uncommitted_deregisters.push(to_deregister);
+            //pending deregisters have to be processed together with this one,
+            //otherwise only part of the cells would still account for the pending hazards
+            self.flush_deregisters(remaining);
         }
     }
 
-- 
2.43.0


From 77b16603345b16f9c027de7663c7aa412fd95489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:44 +0000
Subject: [PATCH 7/9] fix: square the distance from the border for points
 inside a rectangle

---
 jagua-rs/src/geometry/primitives/aa_rectangle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jagua-rs/src/geometry/primitives/aa_rectangle.rs b/jagua-rs/src/geometry/primitives/aa_rectangle.rs
index f0da1ee..105e423 100644
--- a/jagua-rs/src/geometry/primitives/aa_rectangle.rs
+++ b/jagua-rs/src/geometry/primitives/aa_rectangle.rs
@@ -323,7 +323,7 @@ impl DistanceFrom<Point> for AARectangle {
                 .into_iter()
                 .min_by_key(|&d| OrderedFloat(d))
                 .unwrap();
-                (GeoPosition::Interior, min_distance)
+                (GeoPosition::Interior, min_distance.powi(2))
             }
         }
     }
-- 
2.43.0


From f75ba5e4b1341bfc6136a97c36a818bc72fb584c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:07 +0000
Subject: [PATCH 8/9] fix: bounding circle of circles when a later circle
 contains the current bounding circle

---
 jagua-rs/src/geometry/primitives/circle.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jagua-rs/src/geometry/primitives/circle.rs b/jagua-rs/src/geometry/primitives/circle.rs
index 3c79578..6ef459e 100644
--- a/jagua-rs/src/geometry/primitives/circle.rs
+++ b/jagua-rs/src/geometry/primitives/circle.rs
@@ -40,7 +40,10 @@ impl Circle {
 
         for circle in circles {
             let distance_between_centers = bounding_circle.center.distance(circle.center);
-            if bounding_circle.radius < distance_between_centers + circle.radius {
+            if circle.radius > distance_between_centers + bounding_circle.radius {
+                // circle contains the current bounding circle, replace it
+                bounding_circle = circle.clone();
+            } else if bounding_circle.radius < distance_between_centers + circle.radius {
                 // circle not contained in bounding circle, expand
                 let diameter = Edge::new(bounding_circle.center, circle.center)
                     .extend_at_front(bounding_circle.radius)
-- 
2.43.0


From 0952ae1ad5127a999a37760077f4be753832f37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:21 +0000
Subject: [PATCH 9/9] fix: do not treat an exterior hazard as absent from the
 quadrants its shape does not touch

An exterior hazard whose shape lies within one quadrant was marked as absent in
the other three, although it covers them entirely.
---
 jagua-rs/src/collision_detection/quadtree/qt_hazard.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/jagua-rs/src/collision_detection/quadtree/qt_hazard.rs b/jagua-rs/src/collision_detection/quadtree/qt_hazard.rs
index 29af1b2..34d64b4 100644
--- a/jagua-rs/src/collision_detection/quadtree/qt_hazard.rs
+++ b/jagua-rs/src/collision_detection/quadtree/qt_hazard.rs
@@ -62,8 +62,13 @@ impl QTHazard {
                 let mut q_presences = arr![None;4];
 
                 //Check if one of the quadrants entirely contains the hazard
-                let enclosed_haz_quad_index =
-                    haz_q_rels.iter().position(|r| r == &GeoRelation::Enclosed);
+                let enclosed_haz_quad_index = match self.entity.position() {
+                    GeoPosition::Interior => {
+                        haz_q_rels.iter().position(|r| r == &GeoRelation::Enclosed)
+                    }
+                    //the region of an exterior hazard always extends beyond its shape
+                    GeoPosition::Exterior => None,
+                };
 
                 if let Some(quad_index) = enclosed_haz_quad_index {
                     //If the hazard is entirely enclosed within a quadrant,
-- 
2.43.0

