From 9995cfb170e5f6d493504f5bb2c61671935a99d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:34 +0000
Subject: [PATCH 1/9] fix: report contours crossing only at vertices as
 crossing

Contours having no crossing edges were considered as touching
whenever each one has both inner and outer pieces relative to another.
---
 orient/core/processing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orient/core/processing.py b/orient/core/processing.py
index a112357..f218329 100644
--- a/orient/core/processing.py
+++ b/orient/core/processing.py
@@ -102,8 +102,8 @@ def process_closed_linear_queue(events_queue: CompoundEventsQueue,
                   if has_no_touch
                   else Relation.TOUCH)
                  if (has_no_cross
-                     and (test_boundary_not_in_goal_interior
-                          is goal_boundary_not_in_test_interior))
+                     and test_boundary_not_in_goal_interior
+                     and goal_boundary_not_in_test_interior)
                  else Relation.CROSS)
                 if has_no_overlap
                 else Relation.OVERLAP)
-- 
2.43.0


From 0a6d51b76912a8ccb6698a21abe4cf85db30fc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:45 +0000
Subject: [PATCH 2/9] fix: relate linear and compound geometries by pieces of
 the linear one

Crossing of a region's edge does not imply leaving the whole geometry
(e.g. when another region touches the edge at that point), and covering
its whole border does not exclude crossing of its interior.
---
 orient/core/processing.py | 27 +++++++--------------------
 1 file changed, 7 insertions(+), 20 deletions(-)

diff --git a/orient/core/processing.py b/orient/core/processing.py
index f218329..6c03e72 100644
--- a/orient/core/processing.py
+++ b/orient/core/processing.py
@@ -114,33 +114,20 @@ def process_linear_compound_queue(events_queue: CompoundEventsQueue,
     # ``goal`` is a compound object
     # ``test`` is a linear object
     test_not_in_goal_interior = has_no_touch = True
-    test_is_subset_of_goal = goal_border_subset_of_test = True
+    test_is_subset_of_goal = True
     for event in events_queue.sweep(stop_x):
-        if event.relation is SegmentsRelation.CROSS:
-            return Relation.CROSS
-        elif has_no_touch and event.relation is not SegmentsRelation.DISJOINT:
+        if has_no_touch and event.relation is not SegmentsRelation.DISJOINT:
             has_no_touch = False
         if event.from_test:
             if test_is_subset_of_goal and event.outside:
                 test_is_subset_of_goal = False
             if test_not_in_goal_interior and event.inside:
                 test_not_in_goal_interior = False
-        elif (goal_border_subset_of_test
-              and event.relation is not SegmentsRelation.OVERLAP):
-            goal_border_subset_of_test = False
-    if events_queue:
-        if events_queue.peek().from_test:
-            if test_is_subset_of_goal:
-                test_is_subset_of_goal = False
-        elif goal_border_subset_of_test:
-            goal_border_subset_of_test = False
-    if goal_border_subset_of_test:
-        return ((Relation.COMPONENT
-                 if test_not_in_goal_interior
-                 else Relation.ENCLOSED)
-                if test_is_subset_of_goal
-                else Relation.TOUCH)
-    elif test_is_subset_of_goal:
+            if not (test_is_subset_of_goal or test_not_in_goal_interior):
+                return Relation.CROSS
+    if events_queue and events_queue.peek().from_test:
+        test_is_subset_of_goal = False
+    if test_is_subset_of_goal:
         return (Relation.COMPONENT
                 if test_not_in_goal_interior
                 else (Relation.WITHIN
-- 
2.43.0


From e319d60e3d9e788dc68719a9920dc8c92fdd9945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:46 +0000
Subject: [PATCH 3/9] fix: locate directions along segment when relating it to
 region

Analysis of the segment's endpoints picked wrong neighbour vertices
of the region, ignored its vertices lying on the segment after an overlap
and did not recognize edges lying on the same line.
---
 orient/core/region.py | 257 +++++++++++++++---------------------------
 1 file changed, 90 insertions(+), 167 deletions(-)

diff --git a/orient/core/region.py b/orient/core/region.py
index c92ed39..9deb8b6 100644
--- a/orient/core/region.py
+++ b/orient/core/region.py
@@ -1,6 +1,3 @@
-from typing import (Optional,
-                    Tuple)
-
 from ground.base import (Context,
                          Location,
                          Orientation,
@@ -15,7 +12,6 @@ from . import box
 from .contour import (
     equal as contours_equal,
     orientation as contour_orientation,
-    point_vertex_line_divides_angle,
     to_edges_endpoints as contour_to_edges_endpoints,
     to_oriented_edges_endpoints as contour_to_oriented_segments
 )
@@ -31,185 +27,112 @@ from .segment import (locate_point as locate_point_in_segment,
 def locate_point(region: Region,
                  point: Point,
                  context: Context) -> Location:
-    _, location = _locate_point(region, point, context)
-    return location
-
-
-def _locate_point(region: Region,
-                  point: Point,
-                  context: Context) -> Tuple[Optional[int], Location]:
     result = False
     point_y = point.y
-    for index, edge in enumerate(context.contour_segments(region)):
+    for edge in context.contour_segments(region):
         if locate_point_in_segment(edge, point, context) is Location.BOUNDARY:
-            return index, Location.BOUNDARY
+            return Location.BOUNDARY
         start, end = edge.start, edge.end
         if ((start.y > point_y) is not (end.y > point_y)
                 and ((end.y > start.y)
                      is (context.angle_orientation(start, end, point)
                          is Orientation.COUNTERCLOCKWISE))):
             result = not result
-    return None, (Location.INTERIOR if result else Location.EXTERIOR)
-
-
-def _relate_segment_to_contour(contour: Contour,
-                               segment: Segment,
-                               context: Context) -> Relation:
-    # similar to segment-in-contour check
-    # but cross has higher priority over overlap
-    # because cross with contour will be considered as cross with region
-    # whereas overlap with contour can't be an overlap with region
-    # and should be classified by further analysis
-    has_no_touch = has_no_overlap = True
-    last_touched_edge_index = last_touched_edge_start = None
-    start, end = segment.start, segment.end
-    for index, edge in enumerate(context.contour_segments(contour)):
-        edge_start, edge_end = edge_endpoints = edge.start, edge.end
-        relation_with_edge = relate_segments(edge, segment, context)
-        if (relation_with_edge is Relation.COMPONENT
-                or relation_with_edge is Relation.EQUAL):
-            return Relation.COMPONENT
-        elif (relation_with_edge is Relation.OVERLAP
-              or relation_with_edge is Relation.COMPOSITE):
-            if has_no_overlap:
-                has_no_overlap = False
-        elif relation_with_edge is Relation.TOUCH:
-            if has_no_touch:
-                has_no_touch = False
-            elif (index - last_touched_edge_index == 1
-                  and start not in edge_endpoints and end not in edge_endpoints
-                  and (context.angle_orientation(start, end, edge_start)
-                       is Orientation.COLLINEAR)
-                  and point_vertex_line_divides_angle(start,
-                                                      last_touched_edge_start,
-                                                      edge_start, edge_end,
-                                                      context)):
-                return Relation.CROSS
-            last_touched_edge_index = index
-            last_touched_edge_start = edge_start
-        elif relation_with_edge is Relation.CROSS:
-            return Relation.CROSS
-    vertices = contour.vertices
-    if not has_no_touch and last_touched_edge_index == len(vertices) - 1:
-        first_edge_endpoints = first_edge_start, first_edge_end = (
-            vertices[-1], vertices[0]
-        )
-        if (relate_segments(context.segment_cls(first_edge_start,
-                                                first_edge_end), segment,
-                            context) is Relation.TOUCH
-                and start not in first_edge_endpoints
-                and end not in first_edge_endpoints
-                and (context.angle_orientation(start, end, first_edge_start)
-                     is Orientation.COLLINEAR)
-                and point_vertex_line_divides_angle(start, vertices[-2],
-                                                    first_edge_start,
-                                                    first_edge_end, context)):
-            return Relation.CROSS
-    return ((Relation.DISJOINT if has_no_touch else Relation.TOUCH)
-            if has_no_overlap
-            else Relation.OVERLAP)
+    return Location.INTERIOR if result else Location.EXTERIOR
 
 
 def relate_segment(region: Region,
                    segment: Segment,
                    context: Context) -> Relation:
-    relation_with_contour = _relate_segment_to_contour(region, segment,
-                                                       context)
-    if (relation_with_contour is Relation.CROSS
-            or relation_with_contour is Relation.COMPONENT):
-        return relation_with_contour
+    # pieces of the segment lying outside of the region's boundary
+    # start & end either at points of the boundary or at segment's endpoints,
+    # so it is enough to locate directions along the segment there
     start, end = segment.start, segment.end
-    start_index, start_location = _locate_point(region, start, context)
-    if relation_with_contour is Relation.DISJOINT:
-        return (Relation.DISJOINT
-                if start_location is Location.EXTERIOR
-                else Relation.WITHIN)
-    elif start_location is Location.EXTERIOR:
-        return Relation.TOUCH
-    elif start_location is Location.INTERIOR:
-        return Relation.ENCLOSED
+    directions_locations = {
+        location
+        for location in (locate_point(region, start, context),
+                         locate_point(region, end, context))
+        if location is not Location.BOUNDARY
+    }
+    has_no_touch = True
+    border_orientation = contour_orientation(region, context)
+    vertices = region.vertices
+    for index, vertex in enumerate(vertices):
+        edge_start = vertices[index - 1]
+        edge = context.segment_cls(edge_start, vertex)
+        relation_with_edge = relate_segments(edge, segment, context)
+        if relation_with_edge is Relation.DISJOINT:
+            continue
+        elif relation_with_edge is Relation.CROSS:
+            return Relation.CROSS
+        has_no_touch = False
+        next_vertex = vertices[(index + 1) % len(vertices)]
+        if locate_point_in_segment(segment, vertex,
+                                   context) is Location.BOUNDARY:
+            directions_locations.update(
+                    _locate_direction(endpoint, edge_start, vertex,
+                                      next_vertex, border_orientation, context)
+                    for endpoint in (start, end)
+                    if endpoint != vertex
+            )
+        elif relation_with_edge is Relation.TOUCH:
+            for point, other_point in ((start, end), (end, start)):
+                if (point != edge_start
+                        and (locate_point_in_segment(edge, point, context)
+                             is Location.BOUNDARY)):
+                    directions_locations.add(
+                            _locate_direction(other_point, edge_start, point,
+                                              vertex, border_orientation,
+                                              context)
+                    )
+    directions_locations.discard(Location.BOUNDARY)
+    if Location.INTERIOR not in directions_locations:
+        return ((Relation.DISJOINT
+                 if has_no_touch
+                 else Relation.TOUCH)
+                if Location.EXTERIOR in directions_locations
+                else Relation.COMPONENT)
+    elif Location.EXTERIOR not in directions_locations:
+        return Relation.WITHIN if has_no_touch else Relation.ENCLOSED
+    else:
+        return Relation.CROSS
+
+
+def _locate_direction(point: Point,
+                      previous_vertex: Point,
+                      vertex: Point,
+                      next_vertex: Point,
+                      border_orientation: Orientation,
+                      context: Context) -> Location:
+    """
+    Locates initial part of the ray from given vertex of the region's border
+    to the point relative to the region.
+    """
+    angle_orientation = context.angle_orientation(previous_vertex, vertex,
+                                                  next_vertex)
+    first_orientation = context.angle_orientation(previous_vertex, vertex,
+                                                  point)
+    second_orientation = context.angle_orientation(vertex, next_vertex, point)
+    if angle_orientation is Orientation.COLLINEAR:
+        angle_orientation = border_orientation
+    angle_location, other_location = (
+        (Location.INTERIOR, Location.EXTERIOR)
+        if angle_orientation is border_orientation
+        else (Location.EXTERIOR, Location.INTERIOR)
+    )
+    if first_orientation is second_orientation:
+        return (Location.BOUNDARY
+                if first_orientation is Orientation.COLLINEAR
+                else (angle_location
+                      if first_orientation is angle_orientation
+                      else other_location))
+    elif ((first_orientation is Orientation.COLLINEAR
+           and second_orientation is angle_orientation)
+          or (second_orientation is Orientation.COLLINEAR
+              and first_orientation is angle_orientation)):
+        return Location.BOUNDARY
     else:
-        end_index, end_location = _locate_point(region, end, context)
-        if end_location is Location.EXTERIOR:
-            return Relation.TOUCH
-        elif end_location is Location.INTERIOR:
-            return Relation.ENCLOSED
-        else:
-            angle_orientation = context.angle_orientation
-            border_orientation = contour_orientation(region, context)
-            positively_oriented = (border_orientation
-                                   is Orientation.COUNTERCLOCKWISE)
-            vertices = region.vertices
-            edge_start, edge_end = (vertices[start_index - 1],
-                                    vertices[start_index])
-            if start == edge_start:
-                prev_start = (vertices[start_index - 2]
-                              if positively_oriented
-                              else vertices[start_index])
-                if (angle_orientation(prev_start, edge_start, edge_end)
-                        is border_orientation):
-                    if (angle_orientation(edge_start, prev_start, end)
-                            is border_orientation
-                            or angle_orientation(edge_end, edge_start, end)
-                            is border_orientation):
-                        return Relation.TOUCH
-                elif (angle_orientation(edge_start, prev_start, end)
-                      is angle_orientation(edge_end, edge_start, end)
-                      is border_orientation):
-                    return Relation.TOUCH
-            elif start == edge_end:
-                next_end = (vertices[(start_index + 1) % len(vertices)]
-                            if positively_oriented
-                            else vertices[len(vertices) - start_index - 3])
-                if (angle_orientation(edge_start, edge_end, next_end)
-                        is border_orientation):
-                    if (angle_orientation(edge_end, edge_start, end)
-                            is border_orientation
-                            or angle_orientation(next_end, edge_end, end)
-                            is border_orientation):
-                        return Relation.TOUCH
-                    elif (angle_orientation(edge_end, edge_start, end)
-                          is angle_orientation(next_end, edge_end, end)
-                          is border_orientation):
-                        return Relation.TOUCH
-            elif (angle_orientation(edge_end, edge_start, end)
-                  is border_orientation):
-                return Relation.TOUCH
-            edge_start, edge_end = vertices[end_index - 1], vertices[end_index]
-            if end == edge_start:
-                prev_start = (vertices[end_index - 2]
-                              if positively_oriented
-                              else vertices[end_index])
-                if (angle_orientation(prev_start, edge_start, edge_end)
-                        is border_orientation):
-                    if (angle_orientation(edge_start, prev_start, start)
-                            is border_orientation
-                            or angle_orientation(edge_end, edge_start, start)
-                            is border_orientation):
-                        return Relation.TOUCH
-                elif (angle_orientation(edge_start, prev_start, start)
-                      is angle_orientation(edge_end, edge_start, start)
-                      is border_orientation):
-                    return Relation.TOUCH
-            elif end == edge_end:
-                next_end = (vertices[(end_index + 1) % len(vertices)]
-                            if positively_oriented
-                            else vertices[len(vertices) - end_index - 3])
-                if (angle_orientation(edge_start, edge_end, next_end)
-                        is border_orientation):
-                    if (angle_orientation(edge_end, edge_start, start)
-                            is border_orientation
-                            or angle_orientation(next_end, edge_end, start)
-                            is border_orientation):
-                        return Relation.TOUCH
-                elif (angle_orientation(edge_end, edge_start, start)
-                      is angle_orientation(next_end, edge_end, start)
-                      is border_orientation):
-                    return Relation.TOUCH
-            elif (angle_orientation(edge_end, edge_start, start)
-                  is border_orientation):
-                return Relation.TOUCH
-            return Relation.ENCLOSED
+        return other_location
 
 
 def relate_multisegment(region: Region,
-- 
2.43.0


From 725a311aad027014c713df8eb57019af11560083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:46 +0000
Subject: [PATCH 4/9] fix: relate segment to polygon by sweeping all of its
 edges

Segment crossing the border may leave the interior of the polygon
untouched when it passes a point where a hole touches the border.
---
 orient/core/polygon.py | 22 ++--------------------
 1 file changed, 2 insertions(+), 20 deletions(-)

diff --git a/orient/core/polygon.py b/orient/core/polygon.py
index e20fa8d..8312d06 100644
--- a/orient/core/polygon.py
+++ b/orient/core/polygon.py
@@ -16,7 +16,6 @@ from .hints import (Multiregion,
 from .multiregion import (_relate_contour as relate_contour_to_multiregion,
                           _relate_region as relate_region_to_regions,
                           relate_multiregion as relate_multiregions,
-                          relate_segment as relate_segment_to_multiregion,
                           to_oriented_edges_endpoints
                           as multiregion_to_oriented_segments)
 from .multisegment import to_segments_endpoints
@@ -24,7 +23,6 @@ from .processing import process_linear_compound_queue
 from .region import (_relate_contour as relate_contour_to_region,
                      _relate_region as relate_regions,
                      locate_point as locate_point_in_region,
-                     relate_segment as relate_segment_to_region,
                      to_oriented_segments as region_to_oriented_segments)
 
 
@@ -46,24 +44,8 @@ def locate_point(polygon: Polygon,
 def relate_segment(polygon: Polygon,
                    segment: Segment,
                    context: Context) -> Relation:
-    relation_without_holes = relate_segment_to_region(polygon.border, segment,
-                                                      context)
-    if (polygon.holes and (relation_without_holes is Relation.WITHIN
-                           or relation_without_holes is Relation.ENCLOSED)):
-        relation_with_holes = relate_segment_to_multiregion(polygon.holes,
-                                                            segment, context)
-        if relation_with_holes is Relation.DISJOINT:
-            return relation_without_holes
-        elif relation_with_holes is Relation.TOUCH:
-            return Relation.ENCLOSED
-        elif relation_with_holes is Relation.ENCLOSED:
-            return Relation.TOUCH
-        elif relation_with_holes is Relation.WITHIN:
-            return Relation.DISJOINT
-        else:
-            return relation_with_holes
-    else:
-        return relation_without_holes
+    return relate_multisegment(polygon, context.multisegment_cls([segment]),
+                               context)
 
 
 def relate_multisegment(polygon: Polygon,
-- 
2.43.0


From 3d35d89776a4c446389f0b1c93906bb3d98726e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:46 +0000
Subject: [PATCH 5/9] fix: detect segment lying on several collinear edges of
 contour as its component

---
 orient/core/contour.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/orient/core/contour.py b/orient/core/contour.py
index 51f930a..d3ba7bc 100644
--- a/orient/core/contour.py
+++ b/orient/core/contour.py
@@ -33,9 +33,10 @@ def relate_segment(contour: Contour,
                    segment: Segment,
                    context: Context) -> Relation:
     angle_orientation = context.angle_orientation
-    has_no_touch = has_no_cross = True
+    has_no_touch = has_no_cross = has_no_overlap = True
     last_touched_edge_index = last_touched_edge_start = None
     start, end = segment.start, segment.end
+    vertices = contour.vertices
     for index, sub_segment in enumerate(context.contour_segments(contour)):
         sub_segment_start, sub_segment_end = sub_segment_endpoints = (
             sub_segment.start, sub_segment.end
@@ -44,7 +45,18 @@ def relate_segment(contour: Contour,
         if relation is Relation.COMPONENT or relation is Relation.EQUAL:
             return Relation.COMPONENT
         elif relation is Relation.OVERLAP or relation is Relation.COMPOSITE:
-            return Relation.OVERLAP
+            # edge's neighbours may lie on the same line
+            if any(vertex != start and vertex != end
+                   and context.segment_contains_point(segment, vertex)
+                   and (angle_orientation(start, end, neighbour)
+                        is not Orientation.COLLINEAR)
+                   for vertex, neighbour in (
+                           (sub_segment_start, vertices[index - 2]),
+                           (sub_segment_end,
+                            vertices[(index + 1) % len(vertices)])
+                   )):
+                return Relation.OVERLAP
+            has_no_overlap = False
         elif relation is Relation.TOUCH:
             if has_no_touch:
                 has_no_touch = False
@@ -64,7 +76,8 @@ def relate_segment(contour: Contour,
             last_touched_edge_start = sub_segment_start
         elif has_no_cross and relation is Relation.CROSS:
             has_no_cross = False
-    vertices = contour.vertices
+    if not has_no_overlap:
+        return Relation.COMPONENT
     if (has_no_cross
             and not has_no_touch
             and last_touched_edge_index == len(vertices) - 1):
-- 
2.43.0


From 01059d51aae865f6fb839b149978387514601d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:46 +0000
Subject: [PATCH 6/9] fix: compare base goal ray with every other one when
 looking for crossing angles

The pair of rays chosen by cosines does not separate test rays
which alternate with three or more goal rays around a common point.
---
 orient/core/events_queue.py | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/orient/core/events_queue.py b/orient/core/events_queue.py
index 7c4ba58..dddb125 100644
--- a/orient/core/events_queue.py
+++ b/orient/core/events_queue.py
@@ -233,21 +233,17 @@ class LinearEventsQueue(EventsQueue):
              if event.from_test
              else from_goal_events).append(event)
         start = same_start_events[0].start
-        point_event_cosine = self._to_signed_point_event_squared_cosine
-        base_event = min(from_goal_events,
-                         key=partial(point_event_cosine,
-                                     from_goal_events[0].end))
-        base_end = base_event.end
-        largest_angle_event = min(from_goal_events,
-                                  key=partial(point_event_cosine, base_end))
-        largest_angle_end = largest_angle_event.end
-        base_orientation = self.context.angle_orientation(
-                start, base_end, largest_angle_end
+        # rays of different origins alternate
+        # if and only if some of test rays are separated
+        # by the angle between some (no matter which) goal ray & another one
+        first_end, *rest_ends = [event.end for event in from_goal_events]
+        to_orientation = self.context.angle_orientation
+        if any(not all_equal(
+                self._point_in_angle(test_event.end, start, first_end, end,
+                                     to_orientation(start, first_end, end))
+                for test_event in from_test_events
         )
-        if not all_equal(self._point_in_angle(test_event.end, start, base_end,
-                                              largest_angle_end,
-                                              base_orientation)
-                         for test_event in from_test_events):
+               for end in rest_ends):
             for event in same_start_events:
                 left_event = event if event.is_left else event.left
                 left_event.relation = max(left_event.relation,
@@ -321,14 +317,6 @@ class LinearEventsQueue(EventsQueue):
                                 # if angle is degenerate
                                 or Orientation.COUNTERCLOCKWISE))))
 
-    def _to_signed_point_event_squared_cosine(self,
-                                              point: Point,
-                                              event: Event) -> Scalar:
-        dot_product = self.context.dot_product(event.start, point, event.start,
-                                               event.end)
-        return ((2 * (dot_product > 0) - 1) * (dot_product * dot_product)
-                / self.context.points_squared_distance(event.start, event.end))
-
 
 class EventsQueueKey:
     __slots__ = 'orienteer', 'event'
-- 
2.43.0


From 5817df56474b9ce5dadf69599233b074c54d1f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:53 +0000
Subject: [PATCH 7/9] fix: account for holes touching border from outside when
 relating polygons

---
 orient/core/polygon.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/orient/core/polygon.py b/orient/core/polygon.py
index 8312d06..3da9e2c 100644
--- a/orient/core/polygon.py
+++ b/orient/core/polygon.py
@@ -278,7 +278,9 @@ def relate_polygon(goal: Polygon,
                       or holes_relation is Relation.ENCLOSED):
                     return Relation.ENCLOSED
                 elif holes_relation is Relation.WITHIN:
-                    return borders_relation
+                    return (borders_relation
+                            if none_touch
+                            else Relation.ENCLOSED)
                 else:
                     return Relation.OVERLAP
             else:
@@ -330,7 +332,9 @@ def relate_polygon(goal: Polygon,
                   or holes_relation is Relation.ENCLOSED):
                 return Relation.ENCLOSES
             elif holes_relation is Relation.WITHIN:
-                return borders_relation
+                return (borders_relation
+                        if none_touch
+                        else Relation.ENCLOSES)
             else:
                 return Relation.OVERLAP
         else:
-- 
2.43.0


From 877f9e5712309fa5e18a7bfa62f7540e7109fa67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:27 +0000
Subject: [PATCH 8/9] fix: relate multiregions and polygons to polygons with
 holes by sweeping once

---
 orient/core/polygon.py | 193 +++++++----------------------------------
 1 file changed, 30 insertions(+), 163 deletions(-)

diff --git a/orient/core/polygon.py b/orient/core/polygon.py
index 3da9e2c..ab76746 100644
--- a/orient/core/polygon.py
+++ b/orient/core/polygon.py
@@ -19,7 +19,8 @@ from .multiregion import (_relate_contour as relate_contour_to_multiregion,
                           to_oriented_edges_endpoints
                           as multiregion_to_oriented_segments)
 from .multisegment import to_segments_endpoints
-from .processing import process_linear_compound_queue
+from .processing import (process_compound_queue,
+                         process_linear_compound_queue)
 from .region import (_relate_contour as relate_contour_to_region,
                      _relate_region as relate_regions,
                      locate_point as locate_point_in_region,
@@ -140,61 +141,18 @@ def relate_multiregion(polygon: Polygon,
         return relate_region_to_regions(multiregion, border,
                                         border_bounding_box,
                                         context).complement
-    none_touch = True
-    subsets_regions_indices = []
-    for region_index, region in enumerate(multiregion):
-        region_relation = relate_regions(border, region, border_bounding_box,
-                                         context.contour_box(region), context)
-        if region_relation is Relation.TOUCH:
-            if none_touch:
-                none_touch = False
-        elif region_relation in (Relation.OVERLAP,
-                                 Relation.COVER,
-                                 Relation.ENCLOSES):
-            return region_relation
-        elif (region_relation is Relation.COMPOSITE
-              or region_relation is Relation.EQUAL):
-            return Relation.ENCLOSES
-        elif region_relation is not Relation.DISJOINT:
-            if none_touch and (region_relation is Relation.ENCLOSED
-                               or region_relation is Relation.COMPONENT):
-                none_touch = False
-            subsets_regions_indices.append(region_index)
-    if subsets_regions_indices:
-        is_subset_of_border = len(subsets_regions_indices) == len(multiregion)
-        relation_with_holes = relate_multiregions(
-                holes,
-                multiregion
-                if is_subset_of_border
-                else [multiregion[index] for index in subsets_regions_indices],
-                context
-        )
-        if relation_with_holes is Relation.DISJOINT:
-            return ((Relation.WITHIN
-                     if none_touch
-                     else Relation.ENCLOSED)
-                    if is_subset_of_border
-                    else Relation.OVERLAP)
-        elif relation_with_holes is Relation.TOUCH:
-            return (Relation.ENCLOSED
-                    if is_subset_of_border
-                    else Relation.OVERLAP)
-        elif relation_with_holes is Relation.OVERLAP:
-            return relation_with_holes
-        elif relation_with_holes in (Relation.COVER,
-                                     Relation.ENCLOSES,
-                                     Relation.COMPOSITE):
-            return Relation.OVERLAP
-        elif relation_with_holes is Relation.WITHIN:
-            return (Relation.DISJOINT
-                    if none_touch
-                    else Relation.TOUCH)
-        else:
-            return Relation.TOUCH
-    else:
-        return (Relation.DISJOINT
-                if none_touch
-                else Relation.TOUCH)
+    multiregion_bounding_box = context.contours_box(multiregion)
+    if box.disjoint_with(border_bounding_box, multiregion_bounding_box):
+        return Relation.DISJOINT
+    events_queue = CompoundEventsQueue(context)
+    events_queue.register(to_oriented_edges_endpoints(polygon, context),
+                          from_test=False)
+    events_queue.register(multiregion_to_oriented_segments(multiregion,
+                                                           context),
+                          from_test=True)
+    return process_compound_queue(events_queue,
+                                  min(border_bounding_box.max_x,
+                                      multiregion_bounding_box.max_x))
 
 
 def relate_polygon(goal: Polygon,
@@ -233,114 +191,23 @@ def relate_polygon(goal: Polygon,
                     else (Relation.ENCLOSED
                           if test_holes
                           else Relation.EQUAL))
-    elif borders_relation in (Relation.WITHIN,
-                              Relation.ENCLOSED,
-                              Relation.COMPONENT):
-        if goal_holes:
-            none_touch = True
-            subsets_holes_indices = []
-            for hole_index, hole in enumerate(goal_holes):
-                hole_relation = relate_regions(test_border, hole,
-                                               test_bounding_box,
-                                               context.contour_box(hole),
-                                               context)
-                if hole_relation is Relation.TOUCH:
-                    if none_touch:
-                        none_touch = False
-                elif hole_relation is Relation.OVERLAP:
-                    return hole_relation
-                elif hole_relation is Relation.COVER:
-                    return Relation.DISJOINT
-                elif hole_relation in (Relation.ENCLOSES,
-                                       Relation.COMPOSITE,
-                                       Relation.EQUAL):
-                    return Relation.TOUCH
-                elif hole_relation is not Relation.DISJOINT:
-                    subsets_holes_indices.append(hole_index)
-            if subsets_holes_indices:
-                holes_relation = (
-                    relate_multiregions(
-                            test_holes,
-                            goal_holes
-                            if len(subsets_holes_indices) == len(goal_holes)
-                            else [goal_holes[index]
-                                  for index in subsets_holes_indices],
-                            context
-                    )
-                    if test_holes
-                    else Relation.DISJOINT
-                )
-                if holes_relation is Relation.EQUAL:
-                    return (Relation.ENCLOSED
-                            if borders_relation is Relation.WITHIN
-                            else borders_relation)
-                elif (holes_relation is Relation.COMPONENT
-                      or holes_relation is Relation.ENCLOSED):
-                    return Relation.ENCLOSED
-                elif holes_relation is Relation.WITHIN:
-                    return (borders_relation
-                            if none_touch
-                            else Relation.ENCLOSED)
-                else:
-                    return Relation.OVERLAP
-            else:
-                return (borders_relation
-                        if none_touch
-                        else Relation.ENCLOSED)
-        else:
-            return (Relation.ENCLOSED
-                    if test_holes and borders_relation is Relation.COMPONENT
-                    else borders_relation)
+    elif (goal_holes
+          if borders_relation in (Relation.WITHIN,
+                                  Relation.ENCLOSED,
+                                  Relation.COMPONENT)
+          else test_holes):
+        events_queue = CompoundEventsQueue(context)
+        events_queue.register(to_oriented_edges_endpoints(goal, context),
+                              from_test=False)
+        events_queue.register(to_oriented_edges_endpoints(test, context),
+                              from_test=True)
+        return process_compound_queue(events_queue,
+                                      min(goal_bounding_box.max_x,
+                                          test_bounding_box.max_x))
     elif test_holes:
-        none_touch = True
-        subsets_holes_indices = []
-        for hole_index, hole in enumerate(test_holes):
-            hole_relation = relate_regions(goal_border, hole,
-                                           goal_bounding_box,
-                                           context.contour_box(hole), context)
-            if hole_relation is Relation.TOUCH:
-                if none_touch:
-                    none_touch = False
-            elif hole_relation is Relation.OVERLAP:
-                return hole_relation
-            elif hole_relation is Relation.COVER:
-                return Relation.DISJOINT
-            elif hole_relation in (Relation.ENCLOSES,
-                                   Relation.COMPOSITE,
-                                   Relation.EQUAL):
-                return Relation.TOUCH
-            elif hole_relation is not Relation.DISJOINT:
-                subsets_holes_indices.append(hole_index)
-        if subsets_holes_indices:
-            holes_relation = (
-                relate_multiregions(
-                        goal_holes,
-                        test_holes
-                        if len(subsets_holes_indices) == len(test_holes)
-                        else [test_holes[index]
-                              for index in subsets_holes_indices],
-                        context
-                )
-                if goal_holes
-                else Relation.DISJOINT
-            )
-            if holes_relation is Relation.EQUAL:
-                return (Relation.ENCLOSES
-                        if borders_relation is Relation.COVER
-                        else borders_relation)
-            elif (holes_relation is Relation.COMPONENT
-                  or holes_relation is Relation.ENCLOSED):
-                return Relation.ENCLOSES
-            elif holes_relation is Relation.WITHIN:
-                return (borders_relation
-                        if none_touch
-                        else Relation.ENCLOSES)
-            else:
-                return Relation.OVERLAP
-        else:
-            return (borders_relation
-                    if none_touch
-                    else Relation.ENCLOSES)
+        return (Relation.ENCLOSED
+                if borders_relation is Relation.COMPONENT
+                else borders_relation)
     else:
         return (Relation.ENCLOSES
                 if goal_holes and borders_relation is Relation.COMPOSITE
-- 
2.43.0


From 1fc215b98d0c3ca9ca2a915a2281704ecb14ddac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:55 +0000
Subject: [PATCH 9/9] fix: raise errors of context met when looking for
 neighbours in sweep line

---
 orient/core/sweep_line.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/orient/core/sweep_line.py b/orient/core/sweep_line.py
index 1633938..953aaad 100644
--- a/orient/core/sweep_line.py
+++ b/orient/core/sweep_line.py
@@ -35,16 +35,18 @@ class SweepLine(Generic[Event]):
         self._set.remove(event)
 
     def above(self, event: Event) -> Optional[Event]:
-        try:
-            return self._set.next(event)
-        except ValueError:
-            return None
+        # not using ``next`` method of the set since errors raised
+        # by the context should not be confused with absence of the neighbour
+        tree = self._set.tree
+        node = tree.find(self._set.key(event))
+        neighbour = None if node is None else tree.successor(node)
+        return None if neighbour is None else neighbour.value
 
     def below(self, event: Event) -> Optional[Event]:
-        try:
-            return self._set.prev(event)
-        except ValueError:
-            return None
+        tree = self._set.tree
+        node = tree.find(self._set.key(event))
+        neighbour = None if node is None else tree.predecessor(node)
+        return None if neighbour is None else neighbour.value
 
 
 class SweepLineKey:
-- 
2.43.0

