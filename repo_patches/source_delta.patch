From 7865e22dd18ac0661ce32523d660d4f3bea3afda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:34 +0000
Subject: [PATCH 1/8] fix: do not modify stored edges in Wagyu.bounds

The corners of the box were the very points stored in the first bound,
so computing the box overwrote them (and the points of the given rings).
---
 wagyu/wagyu.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/wagyu/wagyu.py b/wagyu/wagyu.py
index f1e0622..a333c3f 100644
--- a/wagyu/wagyu.py
+++ b/wagyu/wagyu.py
@@ -38,8 +38,10 @@ class Wagyu:
             left_bound = local_minimum.left_bound
             if left_bound.edges:
                 if not first_set:
-                    minimum = left_bound.edges[0].top
-                    maximum = left_bound.edges[-1].bottom
+                    minimum = Point(left_bound.edges[0].top.x,
+                                    left_bound.edges[0].top.y)
+                    maximum = Point(left_bound.edges[-1].bottom.x,
+                                    left_bound.edges[-1].bottom.y)
                     first_set = True
                 else:
                     minimum.x = min(minimum.x, left_bound.edges[-1].top.x)
@@ -52,8 +54,10 @@ class Wagyu:
             right_bound = local_minimum.right_bound
             if right_bound.edges:
                 if not first_set:
-                    minimum = right_bound.edges[0].top
-                    maximum = right_bound.edges[-1].bottom
+                    minimum = Point(right_bound.edges[0].top.x,
+                                    right_bound.edges[0].top.y)
+                    maximum = Point(right_bound.edges[-1].bottom.x,
+                                    right_bound.edges[-1].bottom.y)
                     first_set = True
                 else:
                     minimum.x = min(minimum.x, right_bound.edges[-1].top.x)
-- 
2.43.0


From 7738a7c90c0d575e84dfafa6f8ec4a36f2fe9a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:46 +0000
Subject: [PATCH 2/8] fix: take the extreme points of each bound in Wagyu
 bounds

Edges of a bound go from its bottom (local minimum) to its top,
so the lowest y is at the top of the last edge and the highest one
at the bottom of the first edge, not the other way round;
the top of the first considered bound was not taken into account at all.
---
 include/mapbox/geometry/wagyu/wagyu.hpp | 16 ++++++++--------
 wagyu/wagyu.py                          | 24 ++++++++++++------------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/include/mapbox/geometry/wagyu/wagyu.hpp b/include/mapbox/geometry/wagyu/wagyu.hpp
index 908b3e3..ca7ef68 100644
--- a/include/mapbox/geometry/wagyu/wagyu.hpp
+++ b/include/mapbox/geometry/wagyu/wagyu.hpp
@@ -69,12 +69,12 @@ class wagyu {
     for (auto const& lm : minima_list) {
       if (!lm.left_bound.edges.empty()) {
         if (!first_set) {
-          min = lm.left_bound.edges.front().top;
-          max = lm.left_bound.edges.back().bot;
+          min = lm.left_bound.edges.back().top;
+          max = {min.x, lm.left_bound.edges.front().bot.y};
           first_set = true;
         } else {
-          min.y = std::min(min.y, lm.left_bound.edges.front().top.y);
-          max.y = std::max(max.y, lm.left_bound.edges.back().bot.y);
+          min.y = std::min(min.y, lm.left_bound.edges.back().top.y);
+          max.y = std::max(max.y, lm.left_bound.edges.front().bot.y);
           max.x = std::max(max.x, lm.left_bound.edges.back().top.x);
           min.x = std::min(min.x, lm.left_bound.edges.back().top.x);
         }
@@ -85,12 +85,12 @@ class wagyu {
       }
       if (!lm.right_bound.edges.empty()) {
         if (!first_set) {
-          min = lm.right_bound.edges.front().top;
-          max = lm.right_bound.edges.back().bot;
+          min = lm.right_bound.edges.back().top;
+          max = {min.x, lm.right_bound.edges.front().bot.y};
           first_set = true;
         } else {
-          min.y = std::min(min.y, lm.right_bound.edges.front().top.y);
-          max.y = std::max(max.y, lm.right_bound.edges.back().bot.y);
+          min.y = std::min(min.y, lm.right_bound.edges.back().top.y);
+          max.y = std::max(max.y, lm.right_bound.edges.front().bot.y);
           max.x = std::max(max.x, lm.right_bound.edges.back().top.x);
           min.x = std::min(min.x, lm.right_bound.edges.back().top.x);
         }
diff --git a/wagyu/wagyu.py b/wagyu/wagyu.py
index a333c3f..0d7996c 100644
--- a/wagyu/wagyu.py
+++ b/wagyu/wagyu.py
@@ -38,32 +38,32 @@ class Wagyu:
             left_bound = local_minimum.left_bound
             if left_bound.edges:
                 if not first_set:
-                    minimum = Point(left_bound.edges[0].top.x,
-                                    left_bound.edges[0].top.y)
-                    maximum = Point(left_bound.edges[-1].bottom.x,
-                                    left_bound.edges[-1].bottom.y)
+                    minimum = Point(left_bound.edges[-1].top.x,
+                                    left_bound.edges[-1].top.y)
+                    maximum = Point(left_bound.edges[-1].top.x,
+                                    left_bound.edges[0].bottom.y)
                     first_set = True
                 else:
                     minimum.x = min(minimum.x, left_bound.edges[-1].top.x)
-                    minimum.y = min(minimum.y, left_bound.edges[0].top.y)
+                    minimum.y = min(minimum.y, left_bound.edges[-1].top.y)
                     maximum.x = max(maximum.x, left_bound.edges[-1].top.x)
-                    maximum.y = max(maximum.y, left_bound.edges[-1].bottom.y)
+                    maximum.y = max(maximum.y, left_bound.edges[0].bottom.y)
                 for edge in left_bound.edges:
                     minimum.x = min(minimum.x, edge.bottom.x)
                     maximum.x = max(maximum.x, edge.bottom.x)
             right_bound = local_minimum.right_bound
             if right_bound.edges:
                 if not first_set:
-                    minimum = Point(right_bound.edges[0].top.x,
-                                    right_bound.edges[0].top.y)
-                    maximum = Point(right_bound.edges[-1].bottom.x,
-                                    right_bound.edges[-1].bottom.y)
+                    minimum = Point(right_bound.edges[-1].top.x,
+                                    right_bound.edges[-1].top.y)
+                    maximum = Point(right_bound.edges[-1].top.x,
+                                    right_bound.edges[0].bottom.y)
                     first_set = True
                 else:
                     minimum.x = min(minimum.x, right_bound.edges[-1].top.x)
-                    minimum.y = min(minimum.y, right_bound.edges[0].top.y)
+                    minimum.y = min(minimum.y, right_bound.edges[-1].top.y)
                     maximum.x = max(maximum.x, right_bound.edges[-1].top.x)
-                    maximum.y = max(maximum.y, right_bound.edges[-1].bottom.y)
+                    maximum.y = max(maximum.y, right_bound.edges[0].bottom.y)
                 for edge in right_bound.edges:
                     minimum.x = min(minimum.x, edge.bottom.x)
                     maximum.x = max(maximum.x, edge.bottom.x)
-- 
2.43.0


From 3fcf9ccb88194ceb83d36c430f0cb60f8c8a4c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:46 +0000
Subject: [PATCH 3/8] fix: prevent infinite recursion in
 LocalMinimumList.insert

---
 wagyu/local_minimum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wagyu/local_minimum.py b/wagyu/local_minimum.py
index e1bcff5..6d0dedf 100644
--- a/wagyu/local_minimum.py
+++ b/wagyu/local_minimum.py
@@ -168,7 +168,7 @@ class LocalMinimumList(abc.MutableSequence):
         return True
 
     def insert(self, index: int, value: LocalMinimum) -> None:
-        self.insert(index, value)
+        self.values.insert(index, value)
 
 
 def to_edges_starting_on_local_maximum(edges: List[Edge]) -> List[Edge]:
-- 
2.43.0


From 38d1a49f9dfd12bb09428accef64e905c8ce032f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:32 +0000
Subject: [PATCH 4/8] fix: stop the second collinear path search at the ends of
 the first one

The flag is a boolean, so comparing it with None made the condition
always false: the path could go past the ends found by the first search,
which destroyed rings or raised 'Could not properly place hole to a parent'.
---
 wagyu/point_node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wagyu/point_node.py b/wagyu/point_node.py
index 4d9ca63..ec8787e 100644
--- a/wagyu/point_node.py
+++ b/wagyu/point_node.py
@@ -309,7 +309,7 @@ def find_start_and_end_of_collinear_edges(pt_a: PointNode,
         if not first and (back is pt_b or forward is pt_a):
             break
         if (back is forward
-                or first is None and (back is end_b or forward is start_a)):
+                or not first and (back is end_b or forward is start_a)):
             back = back.prev
             forward = forward.next
             break
-- 
2.43.0


From d4c696dc4a1a68fba9705f9f1d73bbca2078de13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:07 +0000
Subject: [PATCH 5/8] fix: look for separate duplicates of the bottom node of a
 ring

---
 wagyu/point_node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wagyu/point_node.py b/wagyu/point_node.py
index ec8787e..cb43261 100644
--- a/wagyu/point_node.py
+++ b/wagyu/point_node.py
@@ -75,7 +75,7 @@ class PointNode:
                     dups = None
                     node = cursor
                 else:
-                    if cursor.next is not node and cursor.prev is node:
+                    if cursor.next is not node and cursor.prev is not node:
                         dups = cursor
             cursor = cursor.next
         if dups is not None:
-- 
2.43.0


From bae3492a1c7f721583a27cd5b08e28fea7a581e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:07 +0000
Subject: [PATCH 6/8] fix: compute abscissas of edges without rounding the
 slope first

---
 include/mapbox/geometry/wagyu/edge.hpp      | 13 +++++++++++--
 include/mapbox/geometry/wagyu/ring_util.hpp | 12 ++++--------
 wagyu/edge.py                               | 21 ++++++++++++---------
 3 files changed, 27 insertions(+), 19 deletions(-)

diff --git a/include/mapbox/geometry/wagyu/edge.hpp b/include/mapbox/geometry/wagyu/edge.hpp
index 20ca521..85d427b 100644
--- a/include/mapbox/geometry/wagyu/edge.hpp
+++ b/include/mapbox/geometry/wagyu/edge.hpp
@@ -90,13 +90,22 @@ inline bool is_horizontal(edge<T> const& e) {
   return std::isinf(e.dx);
 }
 
+template <typename T>
+inline double get_x_at(edge<T> const& edge, const double delta_y) {
+  // dividing last keeps the abscissas that doubles can represent exact
+  return static_cast<double>(edge.bot.x) +
+         (is_horizontal(edge)
+              ? edge.dx * delta_y
+              : static_cast<double>(edge.top.x - edge.bot.x) * delta_y /
+                    static_cast<double>(edge.top.y - edge.bot.y));
+}
+
 template <typename T>
 inline double get_current_x(edge<T> const& edge, const T current_y) {
   if (current_y == edge.top.y) {
     return static_cast<double>(edge.top.x);
   } else {
-    return static_cast<double>(edge.bot.x) +
-           edge.dx * static_cast<double>(current_y - edge.bot.y);
+    return get_x_at(edge, static_cast<double>(current_y - edge.bot.y));
   }
 }
 
diff --git a/include/mapbox/geometry/wagyu/ring_util.hpp b/include/mapbox/geometry/wagyu/ring_util.hpp
index bd5acc5..235c44a 100644
--- a/include/mapbox/geometry/wagyu/ring_util.hpp
+++ b/include/mapbox/geometry/wagyu/ring_util.hpp
@@ -114,8 +114,7 @@ inline T get_edge_min_x(edge<T> const& edge, const T current_y) {
       return edge.top.x;
     } else {
       double lower_range_y = static_cast<double>(current_y - edge.bot.y) - 0.5;
-      double return_val =
-          static_cast<double>(edge.bot.x) + edge.dx * lower_range_y;
+      double return_val = get_x_at(edge, lower_range_y);
       T value = round_towards_min<T>(return_val);
       return value;
     }
@@ -124,8 +123,7 @@ inline T get_edge_min_x(edge<T> const& edge, const T current_y) {
       return edge.bot.x;
     } else {
       double return_val =
-          static_cast<double>(edge.bot.x) +
-          edge.dx * (static_cast<double>(current_y - edge.bot.y) + 0.5);
+          get_x_at(edge, static_cast<double>(current_y - edge.bot.y) + 0.5);
       T value = round_towards_min<T>(return_val);
       return value;
     }
@@ -145,8 +143,7 @@ inline T get_edge_max_x(edge<T> const& edge, const T current_y) {
       return edge.top.x;
     } else {
       double lower_range_y = static_cast<double>(current_y - edge.bot.y) - 0.5;
-      double return_val =
-          static_cast<double>(edge.bot.x) + edge.dx * lower_range_y;
+      double return_val = get_x_at(edge, lower_range_y);
       T value = round_towards_max<T>(return_val);
       return value;
     }
@@ -155,8 +152,7 @@ inline T get_edge_max_x(edge<T> const& edge, const T current_y) {
       return edge.bot.x;
     } else {
       double return_val =
-          static_cast<double>(edge.bot.x) +
-          edge.dx * (static_cast<double>(current_y - edge.bot.y) + 0.5);
+          get_x_at(edge, static_cast<double>(current_y - edge.bot.y) + 0.5);
       T value = round_towards_max<T>(return_val);
       return value;
     }
diff --git a/wagyu/edge.py b/wagyu/edge.py
index 6c9bb2e..5158130 100644
--- a/wagyu/edge.py
+++ b/wagyu/edge.py
@@ -53,7 +53,7 @@ class Edge:
         return float(
                 self.top.x
                 if current_y == self.top.y
-                else self.bottom.x + self.slope * (current_y - self.bottom.y))
+                else self._to_x(current_y - self.bottom.y))
 
     def get_min_x(self, current_y: Coordinate) -> Coordinate:
         if self.is_horizontal:
@@ -63,14 +63,12 @@ class Edge:
                 return self.top.x
             else:
                 lower_range_y = current_y - self.bottom.y - 0.5
-                return round_towards_min(self.bottom.x
-                                         + self.slope * lower_range_y)
+                return round_towards_min(self._to_x(lower_range_y))
         elif current_y == self.bottom.y:
             return self.bottom.x
         else:
             lower_range_y = current_y - self.bottom.y + 0.5
-            return round_towards_min(self.bottom.x
-                                     + self.slope * lower_range_y)
+            return round_towards_min(self._to_x(lower_range_y))
 
     def get_max_x(self, current_y: Coordinate) -> Coordinate:
         if self.is_horizontal:
@@ -80,19 +78,24 @@ class Edge:
                 return self.top.x
             else:
                 lower_range_y = current_y - self.bottom.y - 0.5
-                return round_towards_max(self.bottom.x
-                                         + self.slope * lower_range_y)
+                return round_towards_max(self._to_x(lower_range_y))
         elif current_y == self.bottom.y:
             return self.bottom.x
         else:
             lower_range_y = current_y - self.bottom.y + 0.5
-            return round_towards_max(self.bottom.x
-                                     + self.slope * lower_range_y)
+            return round_towards_max(self._to_x(lower_range_y))
 
     def reverse_horizontal(self) -> None:
         self.top, self.bottom = (Point(self.bottom.x, self.top.y),
                                  Point(self.top.x, self.bottom.y))
 
+    def _to_x(self, delta_y: Coordinate) -> Coordinate:
+        # dividing last keeps the abscissas that floats can represent exact
+        return self.bottom.x + (self.slope * delta_y
+                                if self.is_horizontal
+                                else ((self.top.x - self.bottom.x) * delta_y
+                                      / (self.top.y - self.bottom.y)))
+
 
 def are_edges_slopes_equal(first: Edge, second: Edge) -> bool:
     return ((first.top.y - first.bottom.y) * (second.top.x - second.bottom.x)
-- 
2.43.0


From 8aef5c981eb8e3b5fe858ce6197f83911a18b933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:04 +0000
Subject: [PATCH 7/8] fix: visit the latest connections of rings first as the
 C++ implementation does

---
 wagyu/ring_manager.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/wagyu/ring_manager.py b/wagyu/ring_manager.py
index 7689882..c18082c 100644
--- a/wagyu/ring_manager.py
+++ b/wagyu/ring_manager.py
@@ -1751,8 +1751,11 @@ class RingManager:
                     iList.appendleft((ring_search, (op1, op2)))
                     break
         if not found:
-            connection_map[id(ring_origin)].append((op_origin_1, op_origin_2))
-            connection_map[id(ring_search)].append((op_origin_2, op_origin_1))
+            # the latest connections of a ring are visited first
+            connection_map[id(ring_origin)].insert(0, (op_origin_1,
+                                                       op_origin_2))
+            connection_map[id(ring_search)].insert(0, (op_origin_2,
+                                                       op_origin_1))
             return
         if not iList:
             # the situation where both origin and search are holes
@@ -1765,8 +1768,8 @@ class RingManager:
                 if it_ring2 is ring_search:
                     missing = False
             if missing:
-                connection_map[id(ring_origin)].append((op_origin_1,
-                                                        op_origin_2))
+                connection_map[id(ring_origin)].insert(0, (op_origin_1,
+                                                           op_origin_2))
             return
         if ring_origin.is_hole:
             for index, (ring_itr, (op1, op2)) in enumerate(iList):
@@ -1868,7 +1871,7 @@ class RingManager:
                               if index not in nodes_pairs_indices_to_remove]
         if move_list:
             for ring, nodes_pair in move_list:
-                connection_map[id(ring)].append(nodes_pair)
+                connection_map[id(ring)].insert(0, nodes_pair)
 
     def reassign_as_child(self, ring: Ring, parent: Optional[Ring]) -> None:
         # reassigning a ring assumes it already has an existing parent
-- 
2.43.0


From 19e3ac1e150fea374713af1549c2c3fdd7dcb8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:49 +0000
Subject: [PATCH 8/8] fix: make edges crossing at the same point agree on it

---
 include/mapbox/geometry/wagyu/intersect_util.hpp |  8 +++++---
 wagyu/edge.py                                    | 15 +++++++++------
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/include/mapbox/geometry/wagyu/intersect_util.hpp b/include/mapbox/geometry/wagyu/intersect_util.hpp
index a5586d2..e0935d9 100644
--- a/include/mapbox/geometry/wagyu/intersect_util.hpp
+++ b/include/mapbox/geometry/wagyu/intersect_util.hpp
@@ -67,11 +67,13 @@ bool get_edge_intersection(edge<T1> const& e1, edge<T1> const& e2,
   T1 denominator = (-s2_x * s1_y + s1_x * s2_y);
   if (!denominator) return false;
   T2 s = (-s1_y * (p0_x - p2_x) + s1_x * (p0_y - p2_y)) / denominator;
-  T2 t = (s2_x * (p0_y - p2_y) - s2_y * (p0_x - p2_x)) / denominator;
+  T2 t_numerator = s2_x * (p0_y - p2_y) - s2_y * (p0_x - p2_x);
+  T2 t = t_numerator / denominator;
 
   if (s >= 0.0 && s <= 1.0 && t >= 0.0 && t <= 1.0) {
-    pt.x = p0_x + (t * s1_x);
-    pt.y = p0_y + (t * s1_y);
+    // dividing last makes edges that cross at the same point agree on it
+    pt.x = (p0_x * denominator + t_numerator * s1_x) / denominator;
+    pt.y = (p0_y * denominator + t_numerator * s1_y) / denominator;
     return true;
   }
   // LCOV_EXCL_START
diff --git a/wagyu/edge.py b/wagyu/edge.py
index 5158130..77e85ff 100644
--- a/wagyu/edge.py
+++ b/wagyu/edge.py
@@ -26,17 +26,20 @@ class Edge:
         delta_y = self.top.y - self.bottom.y
         other_delta_x = other.top.x - other.bottom.x
         other_delta_y = other.top.y - other.bottom.y
-        denominator = delta_x * other_delta_y - other_delta_x * delta_y
+        denominator = float(delta_x * other_delta_y - other_delta_x * delta_y)
         if not denominator:
             return None
         s = ((-delta_y * (self.bottom.x - other.bottom.x)
               + delta_x * (self.bottom.y - other.bottom.y))
              / denominator)
-        t = ((other_delta_x * (self.bottom.y - other.bottom.y)
-              - other_delta_y * (self.bottom.x - other.bottom.x))
-             / denominator)
-        return (Point(self.bottom.x + (t * delta_x),
-                      self.bottom.y + (t * delta_y))
+        t_numerator = float(other_delta_x * (self.bottom.y - other.bottom.y)
+                            - other_delta_y * (self.bottom.x - other.bottom.x))
+        t = t_numerator / denominator
+        # dividing last makes edges that cross at the same point agree on it
+        return (Point((self.bottom.x * denominator + t_numerator * delta_x)
+                      / denominator,
+                      (self.bottom.y * denominator + t_numerator * delta_y)
+                      / denominator)
                 if 0. <= s <= 1. and 0. <= t <= 1.
                 else None)
 
-- 
2.43.0

