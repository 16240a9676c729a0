From ab8066332e433ef8326424a35d0e60ab435f47c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:52 +0000
Subject: [PATCH 01/19] fix: stop collinear edges search at already found ends

---
 wagyu/point_node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wagyu/point_node.py b/wagyu/point_node.py
index 4d9ca63..ec8787e 100644
--- a/wagyu/point_node.py
+++ b/wagyu/point_node.py
@@ -309,7 +309,7 @@ def find_start_and_end_of_collinear_edges(pt_a: PointNode,
         if not first and (back is pt_b or forward is pt_a):
             break
         if (back is forward
-                or first is None and (back is end_b or forward is start_a)):
+                or not first and (back is end_b or forward is start_a)):
             back = back.prev
             forward = forward.next
             break
-- 
2.43.0


From 41bd8283ee15672309aba7795f5793f4c1876018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:52 +0000
Subject: [PATCH 02/19] fix: detect non-adjacent duplicates of ring bottom node

---
 wagyu/point_node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wagyu/point_node.py b/wagyu/point_node.py
index ec8787e..cb43261 100644
--- a/wagyu/point_node.py
+++ b/wagyu/point_node.py
@@ -75,7 +75,7 @@ class PointNode:
                     dups = None
                     node = cursor
                 else:
-                    if cursor.next is not node and cursor.prev is node:
+                    if cursor.next is not node and cursor.prev is not node:
                         dups = cursor
             cursor = cursor.next
         if dups is not None:
-- 
2.43.0


From 79d28dbf3f64844a4c070133b4468a72533b9e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:52 +0000
Subject: [PATCH 03/19] fix: compare parent with candidate ring in intersect
 loop search

---
 wagyu/ring_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wagyu/ring_manager.py b/wagyu/ring_manager.py
index 7689882..5acc401 100644
--- a/wagyu/ring_manager.py
+++ b/wagyu/ring_manager.py
@@ -780,7 +780,7 @@ class RingManager:
                 nodes_pairs_indices_to_remove.add(index)
                 continue
             if (it_ring2 is ring_origin
-                    and (ring_parent and it_ring2
+                    and (ring_parent is it_ring2
                          or ring_parent is it_ring2.parent)
                     and prev_pt != op2 and orig_pt != op2):
                 iList.appendleft((ring_search, (op1, op2)))
-- 
2.43.0


From 6bbc4ed7d7bc1b761a0fb7c64f122a6cd9a8c993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:52 +0000
Subject: [PATCH 04/19] fix: keep edges and input rings intact when computing
 bounds

---
 wagyu/wagyu.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/wagyu/wagyu.py b/wagyu/wagyu.py
index f1e0622..fbbcda1 100644
--- a/wagyu/wagyu.py
+++ b/wagyu/wagyu.py
@@ -1,3 +1,5 @@
+from copy import copy
+
 from reprit.base import generate_repr
 
 from .box import Box
@@ -38,8 +40,8 @@ class Wagyu:
             left_bound = local_minimum.left_bound
             if left_bound.edges:
                 if not first_set:
-                    minimum = left_bound.edges[0].top
-                    maximum = left_bound.edges[-1].bottom
+                    minimum = copy(left_bound.edges[0].top)
+                    maximum = copy(left_bound.edges[-1].bottom)
                     first_set = True
                 else:
                     minimum.x = min(minimum.x, left_bound.edges[-1].top.x)
@@ -52,8 +54,8 @@ class Wagyu:
             right_bound = local_minimum.right_bound
             if right_bound.edges:
                 if not first_set:
-                    minimum = right_bound.edges[0].top
-                    maximum = right_bound.edges[-1].bottom
+                    minimum = copy(right_bound.edges[0].top)
+                    maximum = copy(right_bound.edges[-1].bottom)
                     first_set = True
                 else:
                     minimum.x = min(minimum.x, right_bound.edges[-1].top.x)
-- 
2.43.0


From 2df959b36dc541bd07ee7ecb30001b4dbe8ab280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:52 +0000
Subject: [PATCH 05/19] fix: endless recursion on insertion into local minimums
 list

---
 wagyu/local_minimum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wagyu/local_minimum.py b/wagyu/local_minimum.py
index e1bcff5..6d0dedf 100644
--- a/wagyu/local_minimum.py
+++ b/wagyu/local_minimum.py
@@ -168,7 +168,7 @@ class LocalMinimumList(abc.MutableSequence):
         return True
 
     def insert(self, index: int, value: LocalMinimum) -> None:
-        self.insert(index, value)
+        self.values.insert(index, value)
 
 
 def to_edges_starting_on_local_maximum(edges: List[Edge]) -> List[Edge]:
-- 
2.43.0


From 55d53989092f1d21222310cc21e7f0a6ebdd42bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:14 +0000
Subject: [PATCH 06/19] fix: keep local minimums list intact if ring addition
 fails

---
 wagyu/local_minimum.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wagyu/local_minimum.py b/wagyu/local_minimum.py
index 6d0dedf..f56252a 100644
--- a/wagyu/local_minimum.py
+++ b/wagyu/local_minimum.py
@@ -100,6 +100,7 @@ class LocalMinimumList(abc.MutableSequence):
             return False
         edges = to_edges_starting_on_local_maximum(edges)
         first_minimum = last_maximum = None  # type: Optional[Bound]
+        minimums = []  # type: List[LocalMinimum]
         while edges:
             to_minimum = create_bound_towards_minimum(edges)
             if not edges:
@@ -162,9 +163,12 @@ class LocalMinimumList(abc.MutableSequence):
                 else:
                     last_maximum.maximum_bound = minimum.left_bound
                 last_maximum = minimum.right_bound
-            self.values.append(minimum)
+            minimums.append(minimum)
         last_maximum.maximum_bound = first_minimum
         first_minimum.maximum_bound = last_maximum
+        # should be done at once
+        # so a failure in between won't leave a part of the ring
+        self.values.extend(minimums)
         return True
 
     def insert(self, index: int, value: LocalMinimum) -> None:
-- 
2.43.0


From 9db7be96e48cbad9aeb5bb5f8261a3cf96e464ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:14 +0000
Subject: [PATCH 07/19] fix: keep clipper intact if polygon addition fails

---
 wagyu/wagyu.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wagyu/wagyu.py b/wagyu/wagyu.py
index fbbcda1..45fca1b 100644
--- a/wagyu/wagyu.py
+++ b/wagyu/wagyu.py
@@ -75,10 +75,15 @@ class Wagyu:
     def add_polygon(self,
                     polygon: Polygon,
                     polygon_kind: PolygonKind) -> bool:
+        minimums = LocalMinimumList()
         result = False
         for linear_ring in polygon:
-            if self.add_linear_ring(linear_ring, polygon_kind) and not result:
+            if (minimums.add_linear_ring(linear_ring, polygon_kind)
+                    and not result):
                 result = True
+        # should be done at once
+        # so a failure in between won't leave a part of the polygon
+        self.minimums.values.extend(minimums.values)
         return result
 
     def clear(self) -> None:
-- 
2.43.0


From e62d6b770e1a978c3d91709d314769fff895f421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:14 +0000
Subject: [PATCH 08/19] fix: release unfinished rings if operation execution
 fails

---
 wagyu/wagyu.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/wagyu/wagyu.py b/wagyu/wagyu.py
index 45fca1b..7fb5ee5 100644
--- a/wagyu/wagyu.py
+++ b/wagyu/wagyu.py
@@ -96,11 +96,17 @@ class Wagyu:
         if not self.minimums:
             return Multipolygon([])
         manager = RingManager()
-        manager.build_hot_pixels(self.minimums)
-        manager.execute_vatti(self.minimums, operation_kind, subject_fill_type,
-                              clip_fill_type)
-        manager.correct_topology()
-        return manager.build_result(self.reverse_output)
+        try:
+            manager.build_hot_pixels(self.minimums)
+            manager.execute_vatti(self.minimums, operation_kind,
+                                  subject_fill_type, clip_fill_type)
+            manager.correct_topology()
+            return manager.build_result(self.reverse_output)
+        except BaseException:
+            # bounds should not refer to the unfinished rings
+            for minimum in self.minimums:
+                minimum.initialize()
+            raise
 
     def intersect(self,
                   subject_fill_type: FillKind = FillKind.EVEN_ODD,
-- 
2.43.0


From d5ab03cda876298dbda4da99d38baba7fe8aa22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:14 +0000
Subject: [PATCH 09/19] fix: keep local minima list intact if ring addition
 fails

---
 .../mapbox/geometry/wagyu/build_local_minima_list.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/mapbox/geometry/wagyu/build_local_minima_list.hpp b/include/mapbox/geometry/wagyu/build_local_minima_list.hpp
index 943b59f..f53017a 100644
--- a/include/mapbox/geometry/wagyu/build_local_minima_list.hpp
+++ b/include/mapbox/geometry/wagyu/build_local_minima_list.hpp
@@ -17,7 +17,16 @@ bool add_linear_ring(mapbox::geometry::linear_ring<T2> const& path_geometry,
   if (!build_edge_list<T1, T2>(path_geometry, new_edges) || new_edges.empty()) {
     return false;
   }
-  add_ring_to_local_minima_list(new_edges, minima_list, p_type);
+  auto const size = minima_list.size();
+  try {
+    add_ring_to_local_minima_list(new_edges, minima_list, p_type);
+  } catch (...) {
+    // A part of the ring should not be left in the list
+    while (minima_list.size() > size) {
+      minima_list.pop_back();
+    }
+    throw;
+  }
   return true;
 }
 }  // namespace wagyu
-- 
2.43.0


From 8aa997264dd1a5a810adbddb662f8ce388d71e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:14 +0000
Subject: [PATCH 10/19] fix: keep clipper intact if polygon addition fails
 (C++)

---
 include/mapbox/geometry/wagyu/wagyu.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/mapbox/geometry/wagyu/wagyu.hpp b/include/mapbox/geometry/wagyu/wagyu.hpp
index 908b3e3..e1bf7ed 100644
--- a/include/mapbox/geometry/wagyu/wagyu.hpp
+++ b/include/mapbox/geometry/wagyu/wagyu.hpp
@@ -47,10 +47,19 @@ class wagyu {
   bool add_polygon(mapbox::geometry::polygon<T2> const& ppg,
                    polygon_type p_type = polygon_type_subject) {
     bool result = false;
-    for (auto const& r : ppg) {
-      if (add_ring(r, p_type)) {
-        result = true;
+    auto const size = minima_list.size();
+    try {
+      for (auto const& r : ppg) {
+        if (add_ring(r, p_type)) {
+          result = true;
+        }
+      }
+    } catch (...) {
+      // A part of the polygon should not be left in the list
+      while (minima_list.size() > size) {
+        minima_list.pop_back();
       }
+      throw;
     }
     return result;
   }
-- 
2.43.0


From 55842f3539716dc1cfefa6c3002509c7c805d144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:14 +0000
Subject: [PATCH 11/19] fix: release unfinished rings if operation execution
 fails (C++)

---
 include/mapbox/geometry/wagyu/wagyu.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/mapbox/geometry/wagyu/wagyu.hpp b/include/mapbox/geometry/wagyu/wagyu.hpp
index e1bf7ed..b65a28e 100644
--- a/include/mapbox/geometry/wagyu/wagyu.hpp
+++ b/include/mapbox/geometry/wagyu/wagyu.hpp
@@ -128,8 +128,17 @@ class wagyu {
 
     interrupt_check();  // Check for interruptions
 
-    execute_vatti(minima_list, manager, cliptype, subject_fill_type,
-                  clip_fill_type);
+    try {
+      execute_vatti(minima_list, manager, cliptype, subject_fill_type,
+                    clip_fill_type);
+    } catch (...) {
+      // Bounds should not refer to the rings of the destroyed manager
+      for (auto& lm : minima_list) {
+        lm.left_bound.ring = nullptr;
+        lm.right_bound.ring = nullptr;
+      }
+      throw;
+    }
 
     interrupt_check();  // Check for interruptions
 
-- 
2.43.0


From e8534389d5b903182171b5af4ecc0890323859dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:30 +0000
Subject: [PATCH 12/19] fix: keep local minimums list alive while its elements
 are in use

---
 src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index c85de40..159bc45 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -744,7 +744,7 @@ PYBIND11_MODULE(MODULE_NAME, m) {
       .def("__contains__", contains<LocalMinimumList>)
       .def("__len__", to_size<LocalMinimumList>)
       .def("__getitem__", to_item<LocalMinimumList>, py::arg("index"),
-           py::return_value_policy::reference)
+           py::return_value_policy::reference_internal)
       .def("__iter__", to_iterator<LocalMinimumList>, py::keep_alive<0, 1>())
       .def("add_linear_ring",
            [](LocalMinimumList& self, const LinearRing& ring,
-- 
2.43.0


From 9f379d30cb6d008add5a1f322117fb50a967c1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:19 +0000
Subject: [PATCH 13/19] fix: don't depend on caller's decimal context when
 rounding

---
 wagyu/utils.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/wagyu/utils.py b/wagyu/utils.py
index bef80df..9fd4077 100644
--- a/wagyu/utils.py
+++ b/wagyu/utils.py
@@ -3,7 +3,9 @@ import math
 import struct
 from bisect import bisect_left
 from decimal import (ROUND_HALF_UP,
-                     Decimal)
+                     Context,
+                     Decimal,
+                     InvalidOperation)
 from typing import (Callable,
                     MutableSequence,
                     Sequence)
@@ -91,11 +93,21 @@ def round_towards_max(value: Coordinate) -> Coordinate:
             else round_half_up(value))
 
 
+# should not depend on the context of the caller
+_ROUNDING_CONTEXT = Context(prec=28,
+                            rounding=ROUND_HALF_UP,
+                            Emin=-999999,
+                            Emax=999999,
+                            flags=[],
+                            traps=[InvalidOperation])
+
+
 def round_half_up(number: Coordinate) -> int:
     """
     Equivalent of C++'s ``std::llround``.
     """
-    return int(Decimal(number).quantize(0, ROUND_HALF_UP))
+    return int(Decimal.from_float(number)
+               .quantize(Decimal(0), ROUND_HALF_UP, _ROUNDING_CONTEXT))
 
 
 def is_odd(number: int) -> bool:
-- 
2.43.0


From 9a3daa3f483146c244d5fc851d2e924b1298c656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:24 +0000
Subject: [PATCH 14/19] fix: clear local minimums list at once

---
 wagyu/local_minimum.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wagyu/local_minimum.py b/wagyu/local_minimum.py
index f56252a..d8b44d7 100644
--- a/wagyu/local_minimum.py
+++ b/wagyu/local_minimum.py
@@ -171,6 +171,11 @@ class LocalMinimumList(abc.MutableSequence):
         self.values.extend(minimums)
         return True
 
+    def clear(self) -> None:
+        # should be done at once
+        # so a failure in between won't leave a part of the ring
+        self.values.clear()
+
     def insert(self, index: int, value: LocalMinimum) -> None:
         self.values.insert(index, value)
 
-- 
2.43.0


From 9eb45b2a72122cdfdc837ed926d3abf9d18b05f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:59 +0000
Subject: [PATCH 15/19] fix: keep bounds of intersection nodes alive

---
 src/main.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index 159bc45..21d547a 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -701,7 +701,8 @@ PYBIND11_MODULE(MODULE_NAME, m) {
 
   py::class_<IntersectNode>(m, INTERSECT_NODE_NAME)
       .def(py::init<const BoundPtr&, const BoundPtr&, const Point&>(),
-           py::arg("first_bound"), py::arg("second_bound"), py::arg("point"))
+           py::arg("first_bound"), py::arg("second_bound"), py::arg("point"),
+           py::keep_alive<1, 2>(), py::keep_alive<1, 3>())
       .def(py::self == py::self)
       .def("__lt__",
            [](const IntersectNode& self, const IntersectNode& other) {
-- 
2.43.0


From 5852c7079f3a599a3390f83425f172eaac2bd59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:59 +0000
Subject: [PATCH 16/19] fix: keep bounds referred to by copies in local
 minimums alive

---
 src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index 21d547a..5aaa78c 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -720,7 +720,7 @@ PYBIND11_MODULE(MODULE_NAME, m) {
                        coordinate_t y, bool minimum_has_horizontal) {
         return std::make_unique<LocalMinimum>(
             Bound(left_bound), Bound(right_bound), y, minimum_has_horizontal);
-      }))
+      }), py::keep_alive<1, 2>(), py::keep_alive<1, 3>())
       .def(py::self == py::self)
       .def("__repr__", repr<LocalMinimum>)
       .def("__lt__",
-- 
2.43.0


From 0d3acab3e05d0f2699bd997511fd8d477df1e8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:28 +0000
Subject: [PATCH 17/19] fix: link copies of bounds to each other in lists made
 of local minimums

---
 src/main.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index 5aaa78c..e2a8568 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -18,6 +18,7 @@
 #include <mapbox/geometry/wagyu/wagyu.hpp>
 #include <sstream>
 #include <stdexcept>
+#include <unordered_map>
 
 namespace py = pybind11;
 
@@ -737,8 +738,25 @@ PYBIND11_MODULE(MODULE_NAME, m) {
 
   py::class_<LocalMinimumList>(m, LOCAL_MINIMUM_LIST_NAME)
       .def(py::init<>())
-      .def(py::init([](const std::vector<LocalMinimum>& minimums) {
-        return LocalMinimumList(minimums.begin(), minimums.end());
+      .def(py::init([](const std::vector<py::object>& minimums) {
+        LocalMinimumList result;
+        std::unordered_map<const Bound*, BoundPtr> copies{{nullptr, nullptr}};
+        for (const auto& object : minimums) {
+          if (!py::isinstance<LocalMinimum>(object))
+            throw py::type_error("Local minimums are expected.");
+          const auto& minimum = object.cast<const LocalMinimum&>();
+          result.push_back(minimum);
+          copies[&minimum.left_bound] = &result.back().left_bound;
+          copies[&minimum.right_bound] = &result.back().right_bound;
+        }
+        // copies of bounds should not refer to the original ones
+        for (auto& minimum : result)
+          for (auto* bound : {&minimum.left_bound, &minimum.right_bound}) {
+            const auto copy = copies.find(bound->maximum_bound);
+            bound->maximum_bound =
+                copy == copies.end() ? nullptr : copy->second;
+          }
+        return result;
       }))
       .def(py::self == py::self)
       .def("__repr__", repr<LocalMinimumList>)
-- 
2.43.0


From e844e7a8008e9593ffe42cd5cffa6689e71607d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:48 +0000
Subject: [PATCH 18/19] fix: let failed allocations leave constructors of
 bounds

---
 include/mapbox/geometry/wagyu/bound.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mapbox/geometry/wagyu/bound.hpp b/include/mapbox/geometry/wagyu/bound.hpp
index 7404d92..97bd506 100644
--- a/include/mapbox/geometry/wagyu/bound.hpp
+++ b/include/mapbox/geometry/wagyu/bound.hpp
@@ -38,7 +38,7 @@ struct bound {
         std::size_t pos_ = 0, std::int32_t winding_count_ = 0,
         std::int32_t winding_count2_ = 0, std::int8_t winding_delta_ = 0,
         polygon_type poly_type_ = polygon_type_subject,
-        edge_side side_ = edge_left) noexcept
+        edge_side side_ = edge_left)
       : edges(edges_),
         current_edge(edges.end()),
         next_edge(edges.end()),
-- 
2.43.0


From 3f33934e39626fc1dfad264fbb34de0ce676589a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:06 +0000
Subject: [PATCH 19/19] fix: keep iterators valid when elements are added

---
 src/main.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index e2a8568..cf85a31 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -82,6 +82,13 @@ static py::iterator to_iterator(Iterable& iterable) {
   return py::make_iterator(std::begin(iterable), std::end(iterable));
 }
 
+// unlike the one above stays valid when elements are added
+static py::iterator to_index_iterator(const py::object& sequence) {
+  auto* result = PySeqIter_New(sequence.ptr());
+  if (result == nullptr) throw py::error_already_set();
+  return py::reinterpret_steal<py::iterator>(result);
+}
+
 template <class Sequence>
 static std::size_t to_size(Sequence& sequence) {
   return sequence.size();
@@ -495,7 +502,7 @@ PYBIND11_MODULE(MODULE_NAME, m) {
       .def("__repr__", repr<Polygon>)
       .def("__len__", to_size<Polygon>)
       .def("__getitem__", to_item<Polygon>, py::arg("index"))
-      .def("__iter__", to_iterator<Polygon>, py::keep_alive<0, 1>())
+      .def("__iter__", to_index_iterator)
       .def("append",
            mapbox::geometry::wagyu::push_ring_to_polygon<coordinate_t,
                                                          coordinate_t>);
@@ -764,7 +771,7 @@ PYBIND11_MODULE(MODULE_NAME, m) {
       .def("__len__", to_size<LocalMinimumList>)
       .def("__getitem__", to_item<LocalMinimumList>, py::arg("index"),
            py::return_value_policy::reference_internal)
-      .def("__iter__", to_iterator<LocalMinimumList>, py::keep_alive<0, 1>())
+      .def("__iter__", to_index_iterator)
       .def("add_linear_ring",
            [](LocalMinimumList& self, const LinearRing& ring,
               PolygonKind polygon_kind) {
-- 
2.43.0

