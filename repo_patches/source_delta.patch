From bffa94bb4e2b8d03aecb27b361cc51893620d809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:11 +0000
Subject: [PATCH 1/3] fix: clamp negative min_holes_size in multipolygons

---
 hypothesis_geometry/planar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hypothesis_geometry/planar.py b/hypothesis_geometry/planar.py
index c110b71..0971f62 100644
--- a/hypothesis_geometry/planar.py
+++ b/hypothesis_geometry/planar.py
@@ -1650,7 +1650,7 @@ def multipolygons(
         max_size=max_size,
         min_border_size=min_border_size,
         max_border_size=max_border_size,
-        min_hole_count=min_holes_size,
+        min_hole_count=max(min_holes_size, 0),
         max_hole_count=max_holes_size,
         min_hole_size=min_hole_size,
         max_hole_size=max_hole_size,
-- 
2.43.0


From ac2ac4d1cabaf67d3de1f9febfb8f5756a879502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:47 +0000
Subject: [PATCH 2/3] fix: sort star contour vertices around a point of their
 hull

---
 hypothesis_geometry/_core/factories.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hypothesis_geometry/_core/factories.py b/hypothesis_geometry/_core/factories.py
index faa937a..01465ba 100644
--- a/hypothesis_geometry/_core/factories.py
+++ b/hypothesis_geometry/_core/factories.py
@@ -262,6 +262,11 @@ def to_star_contour_vertices(
                     del result[index]
                 index += 1
             compress_contour(result, orienteer=orienteer)
+            # vertices left may lie on one side of the region centroid,
+            # sorting by angle around it would break the orientation
+            centroid = context.multipoint_centroid(
+                context.multipoint_cls(result)
+            )
     return result
 
 
-- 
2.43.0


From fdc2854185700486d313767912ac62f4ab07997c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:43 +0000
Subject: [PATCH 3/3] fix: flip only diagonals of convex quadrilaterals when
 cutting ears

---
 hypothesis_geometry/_core/factories.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hypothesis_geometry/_core/factories.py b/hypothesis_geometry/_core/factories.py
index 01465ba..783dcd3 100644
--- a/hypothesis_geometry/_core/factories.py
+++ b/hypothesis_geometry/_core/factories.py
@@ -554,7 +554,12 @@ def _to_vertex_sequence(
             ears_increments = _to_ears_increments(ears_candidates)
             continue
         while candidate.left_from_end is not candidate.right_from_end:
+            if not _is_convex_quadrilateral_diagonal(candidate.left_from_end):
+                break
             candidate.left_from_end.flip()
+        if candidate.left_from_end is not candidate.right_from_end:
+            ears_candidates.remove(candidate)
+            continue
         assert actual_increment == target_increment
         left_increment -= actual_increment
         ears_candidates.remove(candidate)
-- 
2.43.0

