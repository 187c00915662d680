From 00aef48f208e6b630d59a9c03eac50f82215a6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:33 +0000
Subject: [PATCH 01/74] fix: worker::run must not clear a stop request made
 before its thread started

worker::run set m_running to true in the worker thread. If stop() was called
before that thread got to run, the request was overwritten and
job_dispatcher::stop (or its destructor) blocked forever in join().
---
 include/edyn/parallel/worker.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/edyn/parallel/worker.hpp b/include/edyn/parallel/worker.hpp
index be65822..5738b4d 100644
--- a/include/edyn/parallel/worker.hpp
+++ b/include/edyn/parallel/worker.hpp
@@ -18,8 +18,6 @@ public:
     }
 
     void run() {
-        m_running = true;
-
         for (;;) {
             auto j = m_queue.pop();
             j();
@@ -53,7 +51,7 @@ public:
     }
 
 private:
-    std::atomic_bool m_running {false};
+    std::atomic_bool m_running {true};
     job_queue m_queue;
     std::atomic<size_t> m_size {0};
 };
-- 
2.43.0


From 69bde81293a74c5bccf6dd73b548fb4a3f835433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:33 +0000
Subject: [PATCH 02/74] fix: worker job count must not underflow when a job
 finishes before it is counted

push_job incremented m_size after pushing, so a fast worker decremented it
first and size() momentarily reported SIZE_MAX. When every worker was in that
state job_dispatcher::async found no candidate and dereferenced a null worker.
---
 include/edyn/parallel/worker.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/edyn/parallel/worker.hpp b/include/edyn/parallel/worker.hpp
index 5738b4d..f547123 100644
--- a/include/edyn/parallel/worker.hpp
+++ b/include/edyn/parallel/worker.hpp
@@ -13,8 +13,10 @@ namespace edyn {
 class worker {
 public:
     void push_job(const job &j) {
-        m_queue.push(j);
+        // Increment before pushing, since the job could be executed and the
+        // size decremented before it's incremented here, causing an underflow.
         ++m_size;
+        m_queue.push(j);
     }
 
     void run() {
@@ -39,7 +41,7 @@ public:
 
     void stop() {
         m_running = false;
-        m_queue.push(job::noop()); // Unblock queue with a no-op job.
+        push_job(job::noop()); // Unblock queue with a no-op job.
     }
 
     size_t size() {
-- 
2.43.0


From 66480ac49c4521c9614ad8c0aeb57eac7961332c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:33 +0000
Subject: [PATCH 03/74] fix: initialize job_dispatcher::m_start

It is read by async() to choose where to start looking for a worker and was
indeterminate in a job_dispatcher of automatic or dynamic storage duration.
---
 include/edyn/parallel/job_dispatcher.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edyn/parallel/job_dispatcher.hpp b/include/edyn/parallel/job_dispatcher.hpp
index cc775df..c18cf6f 100644
--- a/include/edyn/parallel/job_dispatcher.hpp
+++ b/include/edyn/parallel/job_dispatcher.hpp
@@ -41,7 +41,7 @@ public:
 private:
     std::vector<std::unique_ptr<std::thread>> m_threads;
     std::map<std::thread::id, std::unique_ptr<worker>> m_workers;
-    std::atomic<size_t> m_start;
+    std::atomic<size_t> m_start {0};
 };
 
 }
-- 
2.43.0


From 6aeac9837c9db3914322c3f3f27183f2da891d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:24 +0000
Subject: [PATCH 04/74] fix: closest points of parallel segments must
 correspond to each other

In the parallel case of closest_point_segment_segment the second pair of
parameters was taken from the extremes of each segment independently, with the
wrong sign in f, so the second pair of points was not a pair of closest points
(e.g. (-3,2,6)-(-1,2,7) vs (-1,4,5)-(3,4,7), or any antiparallel segments).
Also, num_points was left unassigned when a segment degenerates into a point.
---
 src/edyn/math/geom.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/edyn/math/geom.cpp b/src/edyn/math/geom.cpp
index ab6f911..91e1635 100644
--- a/src/edyn/math/geom.cpp
+++ b/src/edyn/math/geom.cpp
@@ -84,6 +84,10 @@ scalar closest_point_segment_segment(const vector3 &p1, const vector3 &q1,
     const auto e = dot(d2, d2); // Squared length of segment `s2`.
     const auto f = dot(d2, r);
 
+    if (num_points != nullptr) {
+        *num_points = 1;
+    }
+
     // Check if either or both segments degenerate into points.
     if (a <= EDYN_EPSILON && e <= EDYN_EPSILON) {
         // Both segments degenerate into points.
@@ -126,12 +130,9 @@ scalar closest_point_segment_segment(const vector3 &p1, const vector3 &q1,
                 s   = clamp_unit(std::min(-c * a_inv, -f1 * a_inv));
                 *sp = clamp_unit(std::max(-c * a_inv, -f1 * a_inv));
 
-                auto r2 = p2 - q1;
-                auto f2 = dot(d2, r2);
-                auto e_inv = 1 / e;
-
-                t   = clamp_unit(std::min(-f * e_inv, -f2 * e_inv));
-                *tp = clamp_unit(std::max(-f * e_inv, -f2 * e_inv));
+                // Point on `s2` closest to `s1(sp)`. The point corresponding
+                // to `s1(s)` is calculated below.
+                *tp = clamp_unit((b * *sp + f) / e);
 
                 if (std::abs(s - *sp) > EDYN_EPSILON) {
                     *num_points = 2;
-- 
2.43.0


From 6e4cd7b75427204b198c81616e4b9e444f23eef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:24 +0000
Subject: [PATCH 05/74] fix: closest_point_box_inside must return the distance
 to the closest face

It returned the distance to the last face that was tested.
---
 src/edyn/math/geom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edyn/math/geom.cpp b/src/edyn/math/geom.cpp
index 91e1635..db1de05 100644
--- a/src/edyn/math/geom.cpp
+++ b/src/edyn/math/geom.cpp
@@ -1039,7 +1039,7 @@ scalar closest_point_box_inside(const vector3 &half_extent, const vector3 &p, ve
         normal = vector3{0, 0, -1};
     }
 
-    return dist;
+    return min_dist;
 }
 
 size_t intersect_line_aabb(const vector2 &p0, const vector2 &p1,
-- 
2.43.0


From e540921ca717f020a73f423f61fdb6e2dc9a5432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:24 +0000
Subject: [PATCH 06/74] fix: parameter of line tangent to circle in
 intersect_line_circle

The projection must be divided by the squared length of the line direction.
Correct only by chance when the points are one unit apart.
---
 src/edyn/math/geom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edyn/math/geom.cpp b/src/edyn/math/geom.cpp
index db1de05..f659740 100644
--- a/src/edyn/math/geom.cpp
+++ b/src/edyn/math/geom.cpp
@@ -211,7 +211,7 @@ size_t intersect_line_circle(const vector2 &p0, const vector2 &p1,
         return 2;
     }
 
-    s0 = -dp * dl2;
+    s0 = -dp / dl2;
     return 1;
 }
 
-- 
2.43.0


From b7b496e8d03a505ea64452bd69b77e5f47ba7bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:24 +0000
Subject: [PATCH 07/74] fix: concentric circles of different radii do not
 intersect

intersect_circle_circle compared the signed difference of the radii with
epsilon and thus reported two intersections if the second circle is larger.
---
 src/edyn/math/geom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edyn/math/geom.cpp b/src/edyn/math/geom.cpp
index f659740..382f8f5 100644
--- a/src/edyn/math/geom.cpp
+++ b/src/edyn/math/geom.cpp
@@ -449,7 +449,7 @@ size_t intersect_circle_circle(const vector2 &posA, scalar radiusA,
     auto rsum = radiusA + radiusB;
     auto rsub = radiusA - radiusB;
 
-    if (lu2 < EDYN_EPSILON && rsub < EDYN_EPSILON) {
+    if (lu2 < EDYN_EPSILON && std::abs(rsub) < EDYN_EPSILON) {
         // Concentric circles of same radius.
         res0 = posA + vector2_x * radiusA;
         res1 = posB - vector2_x * radiusB;
-- 
2.43.0


From 194129586e40e1fdf8a4b5152f7b04ecdd4ed0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:24 +0000
Subject: [PATCH 08/74] fix: closest_point_circle_circle with circles along
 different axes

The basis and the initial angle for circle B were picked using the axis of
circle A, and in the parallel case the direction in A's space was assembled
with the axis indices of B. The points returned for B were not on circle B
unless both circles had the same axis.
---
 src/edyn/math/geom.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/edyn/math/geom.cpp b/src/edyn/math/geom.cpp
index 382f8f5..ea69bd4 100644
--- a/src/edyn/math/geom.cpp
+++ b/src/edyn/math/geom.cpp
@@ -563,9 +563,8 @@ scalar closest_point_circle_circle(
                 dirA[tan_idxA0] = dir.x;
                 dirA[tan_idxA1] = dir.y;
 
-                dirB[norm_idxB] = 0;
-                dirB[tan_idxB0] = dir.x;
-                dirB[tan_idxB1] = dir.y;
+                // Also in A's space.
+                dirB = dirA;
 
                 // Reverse it based on which region the circles are located so they
                 // point in the right direction, towards closest point.
@@ -602,7 +601,7 @@ scalar closest_point_circle_circle(
     auto ornB_in_A = conjugate(ornA) * ornB;
     vector3 u, v;
 
-    switch (axisA) {
+    switch (axisB) {
     case coordinate_axis::x:
         u = quaternion_z(ornB_in_A);
         v = quaternion_y(ornB_in_A);
@@ -622,7 +621,7 @@ scalar closest_point_circle_circle(
     vector3 sup_neg = support_point_circle(posB_in_A, ornB_in_A, radiusB, axisB, -coordinate_axis_vector(axisA));
     vector3 sup = std::abs(sup_pos[norm_idxA]) < std::abs(sup_neg[norm_idxA]) ? sup_pos : sup_neg;
     auto sup_in_B = to_object_space(sup, posB_in_A, ornB_in_A);
-    auto initial_phi = std::atan2(sup_in_B[tan_idxA0], sup_in_B[tan_idxA1]);
+    auto initial_phi = std::atan2(sup_in_B[tan_idxB0], sup_in_B[tan_idxB1]);
 
     // Newton-Raphson iterations.
     auto phi = initial_phi;
-- 
2.43.0


From 06928b66d38735e28dc61e13da70d6d61dad2f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:41 +0000
Subject: [PATCH 09/74] fix: closest points of coaxial circles at different
 positions

The offset of circle B along the common axis was ignored, resulting in a point
that is not on circle B and a wrong distance.
---
 src/edyn/math/geom.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/edyn/math/geom.cpp b/src/edyn/math/geom.cpp
index ea69bd4..3c20cc1 100644
--- a/src/edyn/math/geom.cpp
+++ b/src/edyn/math/geom.cpp
@@ -575,11 +575,11 @@ scalar closest_point_circle_circle(
                 rB0 = to_world_space(posB_in_A + dirB * radiusB, posA, ornA);
                 return distance_sqr(rA0, rB0);
             } else {
-                // Concentric. Return a pair of points that lie on the same line
-                // crossing the center of the circles, which are both at the
-                // origin in this case.
+                // Coaxial. Return a pair of points that lie in the same direction
+                // with respect to the center of the circles, which could be
+                // at different positions along the axis.
                 rA0 = to_world_space(tanA * radiusA, posA, ornA);
-                rB0 = to_world_space(tanA * radiusB, posA, ornA);
+                rB0 = to_world_space(posB_in_A + tanA * radiusB, posA, ornA);
                 return distance_sqr(rA0, rB0);
             }
         }
-- 
2.43.0


From d922729ad38e239c81500314343e4c8af4e9aea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:21 +0000
Subject: [PATCH 10/74] fix: point_inside_convex_polygon must test the closing
 edge

---
 src/edyn/util/shape_util.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/edyn/util/shape_util.cpp b/src/edyn/util/shape_util.cpp
index 6ff16de..884d8a7 100644
--- a/src/edyn/util/shape_util.cpp
+++ b/src/edyn/util/shape_util.cpp
@@ -207,9 +207,10 @@ std::vector<size_t> calculate_convex_hull(const std::vector<vector2> &points, sc
 bool point_inside_convex_polygon(const std::vector<vector2> &vertices, const vector2 &point) {
     EDYN_ASSERT(vertices.size() > 2);
 
-    for (size_t i = 0; i < vertices.size() - 1; ++i) {
+    for (size_t i = 0; i < vertices.size(); ++i) {
+        auto j = (i + 1) % vertices.size();
         auto d = point - vertices[i];
-        auto e = vertices[i + 1] - vertices[i];
+        auto e = vertices[j] - vertices[i];
         // Vertices are oriented counter-clockwise. Rotate edge clockwise
         // to obtain a vector that points outside the convex polygon.
         auto n = -orthogonal(e);
-- 
2.43.0


From ebd6aa369f2c886d4ce7e16018749628458e1256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:21 +0000
Subject: [PATCH 11/74] fix: closest_point_convex_polygon in the Voronoi region
 of sharp vertices and on region boundaries

---
 src/edyn/util/shape_util.cpp | 49 +++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 23 deletions(-)

diff --git a/src/edyn/util/shape_util.cpp b/src/edyn/util/shape_util.cpp
index 884d8a7..46b9502 100644
--- a/src/edyn/util/shape_util.cpp
+++ b/src/edyn/util/shape_util.cpp
@@ -250,6 +250,27 @@ bool closest_point_convex_polygon(const std::vector<vector2> &vertices,
         auto &v1 = vertices[i1];
 
         auto e0 = v1 - v0;
+
+        if (!(dot(p - v1, e0) < 0)) {
+            // Point is past the second boundary of the Voronoi region
+            // of this edge. If it's also before the first boundary of
+            // the Voronoi region on the next edge, it means the Voronoi
+            // region of the vertex connecting these two edges contains
+            // the point. If the angle between the edges is acute, the point
+            // can be behind one of them.
+            auto k = (i + 2) % indices.size();
+            auto i2 = indices[k];
+            auto &v2 = vertices[i2];
+            auto e1 = v2 - v1;
+
+            if (!(dot(p - v1, e1) > 0)) {
+                closest = v1;
+                return true;
+            }
+
+            continue;
+        }
+
         // Vertices are oriented counter-clockwise. Rotate edge clockwise
         // to obtain a vector that points outside the convex polygon.
         auto n0 = -orthogonal(e0);
@@ -261,29 +282,11 @@ bool closest_point_convex_polygon(const std::vector<vector2> &vertices,
 
         if (dot(p - v0, e0) > 0) {
             // Point is past the first boundary of the Voronoi region of
-            // this edge.
-            if (dot(p - v1, e0) < 0) {
-                // Point is before the second boundary of the Voronoi region
-                // of this edge, thus this is the Voronoi region where it belongs.
-                auto t = dot(p - v0, e0) / dot(e0, e0);
-                closest = lerp(v0, v1, t);
-                return true;
-            } else {
-                // Point is past the second boundary of the Voronoi region
-                // of this edge. If it's also before the first boundary of
-                // the Voronoi region on the next edge, it means the Voronoi
-                // region of the vertex connecting these two edges contains
-                // the point.
-                auto k = (i + 2) % indices.size();
-                auto i2 = indices[k];
-                auto &v2 = vertices[i2];
-                auto e1 = v2 - v1;
-
-                if (dot(p - v1, e1) < 0) {
-                    closest = v1;
-                    return true;
-                }
-            }
+            // this edge and before the second, thus this is the Voronoi
+            // region where it belongs.
+            auto t = dot(p - v0, e0) / dot(e0, e0);
+            closest = lerp(v0, v1, t);
+            return true;
         }
     }
 
-- 
2.43.0


From dbb77a96915531009ea74c2b8fe522b7faa78672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:06 +0000
Subject: [PATCH 12/74] fix: shortest_arc of opposite vectors whose dot product
 is rounded

---
 src/edyn/math/quaternion.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/edyn/math/quaternion.cpp b/src/edyn/math/quaternion.cpp
index 75b8553..738f3fb 100644
--- a/src/edyn/math/quaternion.cpp
+++ b/src/edyn/math/quaternion.cpp
@@ -26,13 +26,21 @@ quaternion shortest_arc(const vector3 &v0, const vector3 &v1) noexcept {
     auto c = cross(v0, v1);
     auto d = dot(v0, v1);
 
-    if (d <= -1 + EDYN_EPSILON) {
+    auto c_len_sqr = length_sqr(c);
+
+    // Do not rely on `d` being greater than or equal to -1 plus some epsilon
+    // to find out whether vectors are opposite, since rounding errors could
+    // make the dot product of opposite vectors slightly greater than that.
+    if (d < 0 && c_len_sqr <= 2 * EDYN_EPSILON) {
         vector3 n, m;
         plane_space(v0, n, m);
         return {n.x, n.y, n.z, 0};
     }
 
-    auto s = std::sqrt((1 + d) * 2);
+    // For unit vectors, 1 + d == |c|^2 / (1 - d), which does not suffer from
+    // cancellation when `d` is near -1.
+    auto e = d < 0 ? c_len_sqr / (1 - d) : 1 + d;
+    auto s = std::sqrt(e * 2);
     auto rs = 1 / s;
     return normalize(quaternion{c.x * rs, c.y * rs, c.z * rs, s * scalar(0.5)});
 }
-- 
2.43.0


From 318c6683d98a1c73c6ebd1dfcc098b803c07d926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:06 +0000
Subject: [PATCH 13/74] fix: angle_between must take the shortest path and not
 be NaN for equal rotations

---
 src/edyn/math/quaternion.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/edyn/math/quaternion.cpp b/src/edyn/math/quaternion.cpp
index 738f3fb..5500344 100644
--- a/src/edyn/math/quaternion.cpp
+++ b/src/edyn/math/quaternion.cpp
@@ -1,5 +1,7 @@
 #include "edyn/math/quaternion.hpp"
 #include "edyn/math/geom.hpp"
+#include <algorithm>
+#include <cmath>
 
 namespace edyn {
 
@@ -48,8 +50,10 @@ quaternion shortest_arc(const vector3 &v0, const vector3 &v1) noexcept {
 scalar angle_between(const quaternion &q0, const quaternion &q1) noexcept {
     auto s = std::sqrt(length_sqr(q0) * length_sqr(q1));
     EDYN_ASSERT(std::abs(s) > EDYN_EPSILON);
-    auto d = dot(q0, q1);
-    return std::acos(d / s) * scalar(2);
+    // `q` and `-q` represent the same rotation, thus take the absolute value to
+    // get the angle along the shortest path.
+    auto d = std::abs(dot(q0, q1) / s);
+    return std::acos(std::min(d, scalar(1))) * scalar(2);
 }
 
 }
\ No newline at end of file
-- 
2.43.0


From 325c13b183dddb251ca1ebae44d1db146b49a338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:17 +0000
Subject: [PATCH 14/74] fix: quaternion_angle must not be NaN when w is rounded
 past one

---
 include/edyn/math/quaternion.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/edyn/math/quaternion.hpp b/include/edyn/math/quaternion.hpp
index 1a8383b..af30061 100644
--- a/include/edyn/math/quaternion.hpp
+++ b/include/edyn/math/quaternion.hpp
@@ -3,6 +3,8 @@
 
 #include "vector3.hpp"
 #include "constants.hpp"
+#include <algorithm>
+#include <cmath>
 
 namespace edyn {
 
@@ -174,7 +176,8 @@ inline quaternion quaternion_axis_angle_unit(const vector3 &v, scalar a) noexcep
 
 // Get rotation angle of a quaternion.
 inline scalar quaternion_angle(const quaternion &q) noexcept {
-    return std::acos(q.w) * scalar(2);
+    // Rounding errors can take `w` slightly outside of [-1, 1].
+    return std::acos(std::clamp(q.w, scalar(-1), scalar(1))) * scalar(2);
 }
 
 // Get rotation axis of a quaternion.
-- 
2.43.0


From 6c153e56ccc221505b88049ae253629445112e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:42 +0000
Subject: [PATCH 15/74] fix: insertion_point_index must replace the middle one
 of three collinear points

---
 src/edyn/math/geom.cpp | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/edyn/math/geom.cpp b/src/edyn/math/geom.cpp
index 3c20cc1..29c02e5 100644
--- a/src/edyn/math/geom.cpp
+++ b/src/edyn/math/geom.cpp
@@ -915,23 +915,18 @@ insertion_point_result insertion_point_index(const vector3 *points,
             }
         } else {
             // Points are collinear. Replace point in the middle.
-            auto d0 = dot(points[1] - points[0], points[2] - points[0]);
-
-            if (d0 > 0 && d0 < 1) {
+            // The point in the middle sees the other two in opposite directions.
+            if (dot(points[0] - points[1], points[2] - points[1]) < 0) {
                 // Point 1 is between 0 and 2.
                 return {point_insertion_type::replace, 1};
             }
 
-            auto d1 = dot(points[0] - points[1], points[2] - points[1]);
-
-            if (d1 > 0 && d1 < 1) {
+            if (dot(points[1] - points[0], points[2] - points[0]) < 0) {
                 // Point 0 is between 1 and 2.
                 return {point_insertion_type::replace, 0};
             }
 
-            auto d2 = dot(points[2] - points[0], points[1] - points[0]);
-
-            if (d2 > 0 && d2 < 1) {
+            if (dot(points[0] - points[2], points[1] - points[2]) < 0) {
                 // Point 2 is between 0 and 1.
                 return {point_insertion_type::replace, 2};
             }
-- 
2.43.0


From af2aa77401f4f31cad297ec959f31990ef76fe39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:56 +0000
Subject: [PATCH 16/74] fix: unordered_pair must be a strict weak order
 independent of the order of its values

---
 include/edyn/core/unordered_pair.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/edyn/core/unordered_pair.hpp b/include/edyn/core/unordered_pair.hpp
index 9552b02..1b7e7e1 100644
--- a/include/edyn/core/unordered_pair.hpp
+++ b/include/edyn/core/unordered_pair.hpp
@@ -30,13 +30,19 @@ struct unordered_pair {
     }
 
     bool operator<(const unordered_pair &other) const {
-        if (first == other.second && second == other.first) {
-            return false;
+        // Compare sorted pairs so that the order is independent of the order
+        // of the values in each pair, and is a strict weak order.
+        auto this_swap = second < first;
+        auto other_swap = other.second < other.first;
+        auto &this_min = this_swap ? second : first;
+        auto &this_max = this_swap ? first : second;
+        auto &other_min = other_swap ? other.second : other.first;
+        auto &other_max = other_swap ? other.first : other.second;
+
+        if (this_min == other_min) {
+            return this_max < other_max;
         }
-        if (first == other.first) {
-            return second < other.second;
-        }
-        return first < other.first;
+        return this_min < other_min;
     }
 };
 
-- 
2.43.0


From 4dbf5482e7502bc6cb0d7ae4ca48ee429c3b8293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:36 +0000
Subject: [PATCH 17/74] fix: memory archives must not access misaligned objects
 nor load invalid bools

---
 include/edyn/serialization/memory_archive.hpp | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/edyn/serialization/memory_archive.hpp b/include/edyn/serialization/memory_archive.hpp
index eec77e2..51ea6c3 100644
--- a/include/edyn/serialization/memory_archive.hpp
+++ b/include/edyn/serialization/memory_archive.hpp
@@ -3,6 +3,7 @@
 
 #include <cstdint>
 #include <cstddef>
+#include <cstring>
 #include <type_traits>
 #include <vector>
 #include <array>
@@ -58,8 +59,17 @@ protected:
             return;
         }
 
-        auto* buff = reinterpret_cast<const T*>(m_buffer + m_position);
-        t = *buff;
+        // The position in the buffer isn't necessarily aligned to `T`.
+        if constexpr(std::is_same_v<T, bool>) {
+            // Do not form a bool out of arbitrary bytes.
+            data_type byte;
+            static_assert(sizeof(T) == sizeof(byte));
+            std::memcpy(&byte, m_buffer + m_position, sizeof(byte));
+            t = byte != 0;
+        } else {
+            std::memcpy(&t, m_buffer + m_position, sizeof(T));
+        }
+
         m_position += sizeof(T);
     }
 
@@ -110,8 +120,7 @@ protected:
     void write_bytes(const T &t) {
         auto idx = m_buffer->size();
         m_buffer->resize(idx + sizeof(T));
-        auto *dest = reinterpret_cast<T*>(&(*m_buffer)[idx]);
-        *dest = t;
+        std::memcpy(&(*m_buffer)[idx], &t, sizeof(T));
     }
 
     buffer_type *m_buffer;
@@ -159,8 +168,7 @@ protected:
             return;
         }
 
-        auto *dest = reinterpret_cast<T*>(m_buffer + m_position);
-        *dest = t;
+        std::memcpy(m_buffer + m_position, &t, sizeof(T));
         m_position += sizeof(T);
     }
 
-- 
2.43.0


From c0374145a80292fb4a44cfea2d74972c652455cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:36 +0000
Subject: [PATCH 18/74] fix: writing a container to an archive must not modify
 it

---
 include/edyn/serialization/std_s11n.hpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/edyn/serialization/std_s11n.hpp b/include/edyn/serialization/std_s11n.hpp
index 451604c..31128f8 100644
--- a/include/edyn/serialization/std_s11n.hpp
+++ b/include/edyn/serialization/std_s11n.hpp
@@ -21,7 +21,10 @@ void serialize(Archive &archive, std::string& str) {
     using size_type = uint16_t;
     size_type size = std::min(str.size(), static_cast<size_t>(std::numeric_limits<size_type>::max()));
     archive(size);
-    str.resize(size);
+
+    if constexpr(Archive::is_input::value) {
+        str.resize(size);
+    }
 
     for (size_t i = 0; i < size; ++i) {
         archive(str[i]);
@@ -33,7 +36,10 @@ void serialize(Archive &archive, std::vector<T> &vector) {
     using size_type = uint16_t;
     size_type size = std::min(vector.size(), static_cast<size_t>(std::numeric_limits<size_type>::max()));
     archive(size);
-    vector.resize(size);
+
+    if constexpr(Archive::is_input::value) {
+        vector.resize(size);
+    }
 
     for (size_t i = 0; i < size; ++i) {
         archive(vector[i]);
@@ -45,7 +51,10 @@ void serialize(Archive &archive, std::vector<bool> &vector) {
     using size_type = uint16_t;
     size_type size = std::min(vector.size(), static_cast<size_t>(std::numeric_limits<size_type>::max()));
     archive(size);
-    vector.resize(size);
+
+    if constexpr(Archive::is_input::value) {
+        vector.resize(size);
+    }
 
     // Serialize individual bits.
     using set_type = uint32_t;
@@ -61,14 +70,14 @@ void serialize(Archive &archive, std::vector<bool> &vector) {
         if constexpr(Archive::is_output::value) {
             set_type set = 0;
             for (size_t j = 0; j < count; ++j) {
-                set |= static_cast<bool>(vector[start + j]) << j;
+                set |= static_cast<set_type>(vector[start + j]) << j;
             }
             archive(set);
         } else {
-            set_type set;
+            set_type set = 0;
             archive(set);
             for (size_t j = 0; j < count; ++j) {
-                vector[start + j] = (set & (1 << j)) > 0;
+                vector[start + j] = (set & (set_type{1} << j)) > 0;
             }
         }
     }
-- 
2.43.0


From c055577936366bc2c77d3737b7330662f89de988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:36 +0000
Subject: [PATCH 19/74] fix: reading a map must replace its contents and
 written maps must match their size

---
 include/edyn/serialization/std_s11n.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/edyn/serialization/std_s11n.hpp b/include/edyn/serialization/std_s11n.hpp
index 31128f8..b77bafc 100644
--- a/include/edyn/serialization/std_s11n.hpp
+++ b/include/edyn/serialization/std_s11n.hpp
@@ -201,13 +201,21 @@ void serialize(Archive &archive, std::map<K, V> &map) {
     archive(size);
 
     if constexpr(Archive::is_input::value) {
-        auto pair = std::pair<K, V>{};
+        map.clear();
+
         for (size_type i = 0; i < size; ++i) {
+            auto pair = std::pair<K, V>{};
             archive(pair);
-            map.emplace(pair);
+            map.emplace(std::move(pair));
         }
     } else {
+        size_type i = 0;
+
         for (auto &pair : map) {
+            if (i++ == size) {
+                break;
+            }
+
             // Safe to const_cast since it's an output archive thus will only
             // read from arguments.
             auto &first = const_cast<K &>(pair.first);
-- 
2.43.0


From 63a412a730668f3864bbf358fd10657ee4ee8bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:36 +0000
Subject: [PATCH 20/74] fix: serialization_sizeof of a variant must visit it

---
 include/edyn/serialization/std_s11n.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edyn/serialization/std_s11n.hpp b/include/edyn/serialization/std_s11n.hpp
index b77bafc..1054957 100644
--- a/include/edyn/serialization/std_s11n.hpp
+++ b/include/edyn/serialization/std_s11n.hpp
@@ -149,10 +149,10 @@ void serialize(Archive& archive, std::variant<Ts...>& var) {
 
 template<typename... Ts>
 size_t serialization_sizeof(const std::variant<Ts...>& var) {
-    size_t content_size;
+    size_t content_size {};
     std::visit([&content_size](auto &&t) {
         content_size = sizeof(t);
-    });
+    }, var);
     return sizeof(uint8_t) + content_size;
 }
 
-- 
2.43.0


From f2c9024aaca7843207837fab9fd2787b05da826e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:46 +0000
Subject: [PATCH 21/74] fix: writing actions to an archive must not discard
 them from their source

---
 include/edyn/comp/action_list.hpp               | 6 +++++-
 include/edyn/networking/comp/action_history.hpp | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/edyn/comp/action_list.hpp b/include/edyn/comp/action_list.hpp
index 1729ac5..ca5df4b 100644
--- a/include/edyn/comp/action_list.hpp
+++ b/include/edyn/comp/action_list.hpp
@@ -1,6 +1,7 @@
 #ifndef EDYN_COMP_ACTION_LIST_HPP
 #define EDYN_COMP_ACTION_LIST_HPP
 
+#include <algorithm>
 #include <limits>
 #include <vector>
 #include <cstdint>
@@ -24,7 +25,10 @@ void serialize(Archive &archive, action_list<Action> &list) {
     auto size = static_cast<size_type>(std::min(list.actions.size(),
                                        static_cast<size_t>(std::numeric_limits<size_type>::max())));
     archive(size);
-    list.actions.resize(size);
+
+    if constexpr(Archive::is_input::value) {
+        list.actions.resize(size);
+    }
 
     for (size_type i = 0; i < size; ++i) {
         archive(list.actions[i]);
diff --git a/include/edyn/networking/comp/action_history.hpp b/include/edyn/networking/comp/action_history.hpp
index 93553e5..f86196f 100644
--- a/include/edyn/networking/comp/action_history.hpp
+++ b/include/edyn/networking/comp/action_history.hpp
@@ -68,7 +68,10 @@ void serialize(Archive &archive, action_history &history) {
     size_type size = static_cast<size_type>(std::min(history.entries.size(),
                                             static_cast<size_t>(std::numeric_limits<size_type>::max())));
     archive(size);
-    history.entries.resize(size);
+
+    if constexpr(Archive::is_input::value) {
+        history.entries.resize(size);
+    }
 
     for (size_type i = 0; i < size; ++i) {
         archive(history.entries[i].timestamp);
-- 
2.43.0


From c75f66fc13d58d3e24dfd422ebb9d3b89e117e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:19 +0000
Subject: [PATCH 22/74] fix: edge material interpolation in triangle_mesh must
 be linear in the position along the edge

---
 src/edyn/shapes/triangle_mesh.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/edyn/shapes/triangle_mesh.cpp b/src/edyn/shapes/triangle_mesh.cpp
index 0c47004..b18b860 100644
--- a/src/edyn/shapes/triangle_mesh.cpp
+++ b/src/edyn/shapes/triangle_mesh.cpp
@@ -170,7 +170,7 @@ scalar triangle_mesh::get_edge_friction(size_t edge_idx, scalar fraction) const
 
 scalar triangle_mesh::get_edge_friction(size_t edge_idx, vector3 point) const {
     auto [v0, v1] = get_edge_vertices(edge_idx);
-    auto fraction = distance_sqr(point, v0) / distance_sqr(v1, v0);
+    auto fraction = dot(point - v0, v1 - v0) / distance_sqr(v1, v0);
     return get_edge_friction(edge_idx, fraction);
 }
 
@@ -198,7 +198,7 @@ scalar triangle_mesh::get_edge_restitution(size_t edge_idx, scalar fraction) con
 
 scalar triangle_mesh::get_edge_restitution(size_t edge_idx, vector3 point) const {
     auto [v0, v1] = get_edge_vertices(edge_idx);
-    auto fraction = distance_sqr(point, v0) / distance_sqr(v1, v0);
+    auto fraction = dot(point - v0, v1 - v0) / distance_sqr(v1, v0);
     return get_edge_restitution(edge_idx, fraction);
 }
 
@@ -229,7 +229,7 @@ std::array<triangle_mesh::material_influence, 2> triangle_mesh::get_edge_materia
 
 std::array<triangle_mesh::material_influence, 2> triangle_mesh::get_edge_material_id(size_t edge_idx, vector3 point) const {
     auto [v0, v1] = get_edge_vertices(edge_idx);
-    auto fraction = distance_sqr(point, v0) / distance_sqr(v1, v0);
+    auto fraction = dot(point - v0, v1 - v0) / distance_sqr(v1, v0);
     return get_edge_material_id(edge_idx, fraction);
 }
 
-- 
2.43.0


From 7e3dab0db7a469e23bd593c39ed76e730868024a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:20 +0000
Subject: [PATCH 23/74] fix: moment of inertia of a solid capsule

The cylinder's axial and transversal elements were swapped for capsules along
y and z, and the transversal moment of the caps included (3r/8)^2 twice.
---
 src/edyn/dynamics/moment_of_inertia.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/edyn/dynamics/moment_of_inertia.cpp b/src/edyn/dynamics/moment_of_inertia.cpp
index f5bf0ab..08bb3e7 100644
--- a/src/edyn/dynamics/moment_of_inertia.cpp
+++ b/src/edyn/dynamics/moment_of_inertia.cpp
@@ -72,11 +72,16 @@ vector3 moment_of_inertia_solid_capsule(scalar mass, scalar len, scalar radius,
     auto cyl_mass = mass * cyl_vol / total_vol;
     auto sph_mass = mass * sph_vol / total_vol;
 
-    auto cyl_inertia = moment_of_inertia_solid_cylinder(cyl_mass, len, radius, axis);
+    // Inertia of a cylinder along the x axis, thus always the x element is
+    // axial and y is transversal, regardless of the capsule axis.
+    auto cyl_inertia = moment_of_inertia_solid_cylinder(cyl_mass, len, radius, coordinate_axis::x);
     auto sph_inertia = moment_of_inertia_solid_sphere(sph_mass, radius);
 
     auto xx = sph_inertia + cyl_inertia.x;
-    auto yy_zz = sph_inertia + sph_mass * square(scalar(4) * len + scalar(3) * radius) / scalar(64) + cyl_inertia.y;
+    // Shift the moment of inertia of both hemispheres from the center of the
+    // sphere to their center of mass, which is at `3/8 * radius`, then to the
+    // center of the capsule: `(len/2 + 3/8*r)^2 - (3/8*r)^2`.
+    auto yy_zz = sph_inertia + sph_mass * len * (scalar(2) * len + scalar(3) * radius) / scalar(8) + cyl_inertia.y;
 
     switch (axis) {
     case coordinate_axis::x:
-- 
2.43.0


From a6731b0aee0b2df3d84f6ece3b0672a722d4bd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:20 +0000
Subject: [PATCH 24/74] fix: off-diagonal elements of the inertia tensor of a
 polyhedron have the opposite sign

---
 src/edyn/dynamics/moment_of_inertia.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/edyn/dynamics/moment_of_inertia.cpp b/src/edyn/dynamics/moment_of_inertia.cpp
index 08bb3e7..948865a 100644
--- a/src/edyn/dynamics/moment_of_inertia.cpp
+++ b/src/edyn/dynamics/moment_of_inertia.cpp
@@ -147,9 +147,10 @@ matrix3x3 moment_of_inertia_polyhedron(scalar mass,
 
     auto density = mass / (volume / scalar(6));
     auto r = density / scalar (120);
-    auto Iyz = yz * r;
-    auto Izx = zx * r;
-    auto Ixy = xy * r;
+    // Off-diagonal elements of the inertia tensor are the negated products of inertia.
+    auto Iyz = -yz * r;
+    auto Izx = -zx * r;
+    auto Ixy = -xy * r;
     auto Ixx = (yy + zz) * r;
     auto Iyy = (zz + xx) * r;
     auto Izz = (xx + yy) * r;
-- 
2.43.0


From 7cf7d6a042e1f746f53cb97d9dd81d6fe0ae432e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:20 +0000
Subject: [PATCH 25/74] fix: recalculating the properties of a convex mesh must
 replace the previous ones

---
 src/edyn/shapes/convex_mesh.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/edyn/shapes/convex_mesh.cpp b/src/edyn/shapes/convex_mesh.cpp
index 649f7df..92f2f72 100644
--- a/src/edyn/shapes/convex_mesh.cpp
+++ b/src/edyn/shapes/convex_mesh.cpp
@@ -172,6 +172,8 @@ void convex_mesh::calculate_edges() {
 }
 
 void convex_mesh::calculate_neighbors() {
+    neighbors_start.clear();
+    neighbor_indices.clear();
     neighbors_start.push_back(0);
     uint32_t neighbor_count = 0;
 
@@ -193,6 +195,9 @@ void convex_mesh::calculate_neighbors() {
 }
 
 void convex_mesh::calculate_relevant_faces() {
+    relevant_faces.clear();
+    relevant_normals.clear();
+
     // Find unique face normals.
     for (size_t face_idx = 0; face_idx < num_faces(); ++face_idx) {
         auto &normal = normals[face_idx];
@@ -209,6 +214,8 @@ void convex_mesh::calculate_relevant_faces() {
 }
 
 void convex_mesh::calculate_relevant_edges() {
+    relevant_edges.clear();
+
     // Find unique edge directions. Parallel edges that point in opposite
     // directions are considered similar since the direction doesn't matter
     // when doing edge vs edge in SAT.
-- 
2.43.0


From 1b9d393be38ca25372b2ffa021fac49197c2e43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:36 +0000
Subject: [PATCH 26/74] fix: clearing a free list must reset its elements

---
 include/edyn/core/free_list.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/edyn/core/free_list.hpp b/include/edyn/core/free_list.hpp
index d0c30be..e2e1696 100644
--- a/include/edyn/core/free_list.hpp
+++ b/include/edyn/core/free_list.hpp
@@ -47,6 +47,7 @@ public:
     void clear() {
         for (auto i = size_t{}; i < m_elem.size(); ++i) {
             auto &elem = m_elem[i];
+            elem = {};
             elem.next = i + 1;
         }
 
-- 
2.43.0


From 718e46c74a349dce8dd142e81133f04d2514d424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:00 +0000
Subject: [PATCH 27/74] fix: contact point settings must not be read from
 absent async settings

---
 include/edyn/collision/narrowphase.hpp                | 2 +-
 src/edyn/collision/narrowphase.cpp                    | 2 +-
 src/edyn/networking/util/import_contact_manifolds.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/edyn/collision/narrowphase.hpp b/include/edyn/collision/narrowphase.hpp
index 402de6f..5af010f 100644
--- a/include/edyn/collision/narrowphase.hpp
+++ b/include/edyn/collision/narrowphase.hpp
@@ -64,7 +64,7 @@ void narrowphase::update_contact_manifolds(Iterator begin, Iterator end) {
     auto dt = registry.ctx().get<settings>().fixed_dt;
 
     auto &async_settings = registry.ctx().get<const settings>().async_settings;
-    const auto &transient = async_settings->contact_points_transient;
+    const auto transient = async_settings ? async_settings->contact_points_transient : std::nullopt;
 
     for (auto it = begin; it != end; ++it) {
         entt::entity manifold_entity = *it;
diff --git a/src/edyn/collision/narrowphase.cpp b/src/edyn/collision/narrowphase.cpp
index 8c4d61e..6c57d90 100644
--- a/src/edyn/collision/narrowphase.cpp
+++ b/src/edyn/collision/narrowphase.cpp
@@ -91,7 +91,7 @@ void narrowphase::finish_detect_collision() {
     it = manifold_view.begin();
 
     auto &async_settings = m_registry->ctx().get<const settings>().async_settings;
-    const auto &transient = async_settings->contact_points_transient;
+    const auto transient = async_settings ? async_settings->contact_points_transient : std::nullopt;
 
     for (size_t i = 0; i < num_manifolds; ++i, ++it) {
         auto entity = *it;
diff --git a/src/edyn/networking/util/import_contact_manifolds.cpp b/src/edyn/networking/util/import_contact_manifolds.cpp
index 948a588..9767ece 100644
--- a/src/edyn/networking/util/import_contact_manifolds.cpp
+++ b/src/edyn/networking/util/import_contact_manifolds.cpp
@@ -105,7 +105,7 @@ void replace_manifold(entt::registry &registry,
     auto info_entity = manifold_info.contact_entity;
     auto &manifold_state = registry.get<contact_manifold_state>(manifold_entity);
     auto &async_settings = registry.ctx().get<const settings>().async_settings;
-    const auto &transient = async_settings->contact_points_transient;
+    const auto transient = async_settings ? async_settings->contact_points_transient : std::nullopt;
 
     while (info_entity != entt::null) {
         auto &contact = contacts.get(info_entity);
-- 
2.43.0


From 40eab148c13b6cb1a8baf2b1b61a6b0ae1650d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:49 +0000
Subject: [PATCH 28/74] fix: non-procedural bodies left out of a split island
 must not keep residing in it

---
 src/edyn/simulation/island_manager.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/edyn/simulation/island_manager.cpp b/src/edyn/simulation/island_manager.cpp
index c0f3412..f360ceb 100644
--- a/src/edyn/simulation/island_manager.cpp
+++ b/src/edyn/simulation/island_manager.cpp
@@ -437,6 +437,15 @@ void island_manager::split_islands() {
             }
         }
 
+        // Non-procedural entities which are not in the island that remains do
+        // not reside in it anymore.
+        for (auto entity : source_island.nodes) {
+            if (multi_resident_view.contains(entity) && !islands[biggest_idx].nodes.contains(entity)) {
+                auto [resident] = multi_resident_view.get(entity);
+                resident.island_entities.remove(source_island_entity);
+            }
+        }
+
         source_island = std::move(islands[biggest_idx]);
         // swap with last and pop.
         islands[biggest_idx] = std::move(islands.back());
-- 
2.43.0


From b8033cdcba33165370053f828379c074176a2b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:49 +0000
Subject: [PATCH 29/74] fix: inertia tensor of a compound with rotated shapes
 must be symmetric

---
 src/edyn/dynamics/moment_of_inertia.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/edyn/dynamics/moment_of_inertia.cpp b/src/edyn/dynamics/moment_of_inertia.cpp
index 948865a..3af8e84 100644
--- a/src/edyn/dynamics/moment_of_inertia.cpp
+++ b/src/edyn/dynamics/moment_of_inertia.cpp
@@ -205,7 +205,8 @@ matrix3x3 moment_of_inertia(const compound_shape &sh, scalar mass) {
         }, node.shape_var);
     }
 
-    return inertia;
+    // Rotating the tensors can make them slightly asymmetric due to rounding.
+    return (inertia + transpose(inertia)) * scalar(0.5);
 }
 
 matrix3x3 moment_of_inertia(const paged_mesh_shape &sh, scalar mass) {
-- 
2.43.0


From 97be03fb3e4273bb04fa26b52a60406f837c0d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:49 +0000
Subject: [PATCH 30/74] fix: setting mass and inertia of a body that was
 created without them

---
 src/edyn/util/rigidbody.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/edyn/util/rigidbody.cpp b/src/edyn/util/rigidbody.cpp
index cbf24a2..6ece9be 100644
--- a/src/edyn/util/rigidbody.cpp
+++ b/src/edyn/util/rigidbody.cpp
@@ -300,15 +300,18 @@ bool validate_rigidbody(entt::registry &registry, entt::entity &entity) {
 void set_rigidbody_mass(entt::registry &registry, entt::entity entity, scalar mass) {
     EDYN_ASSERT(mass > EDYN_EPSILON && mass < large_scalar);
     EDYN_ASSERT(registry.any_of<rigidbody_tag>(entity));
-    registry.replace<edyn::mass>(entity, mass);
-    registry.replace<edyn::mass_inv>(entity, scalar(1.0) / mass);
+    registry.emplace_or_replace<edyn::mass>(entity, mass);
+    registry.emplace_or_replace<edyn::mass_inv>(entity, scalar(1.0) / mass);
 }
 
 void set_rigidbody_inertia(entt::registry &registry, entt::entity entity, const matrix3x3 &inertia) {
     EDYN_ASSERT(registry.any_of<rigidbody_tag>(entity));
     auto I_inv = inverse_matrix_symmetric(inertia);
-    registry.replace<edyn::inertia>(entity, inertia);
-    registry.replace<edyn::inertia_inv>(entity, I_inv);
+    registry.emplace_or_replace<edyn::inertia>(entity, inertia);
+    registry.emplace_or_replace<edyn::inertia_inv>(entity, I_inv);
+
+    auto basis = to_matrix3x3(registry.get<orientation>(entity));
+    registry.emplace_or_replace<inertia_world_inv>(entity, basis * I_inv * transpose(basis));
 }
 
 void set_rigidbody_friction(entt::registry &registry, entt::entity entity, scalar friction) {
-- 
2.43.0


From f2d7ed97b0c44ba1fd0df24ca23ef79ee3c2e446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:14 +0000
Subject: [PATCH 31/74] fix: removing a body from the procedural ones must not
 leave unconnected bodies in its island

---
 src/edyn/simulation/island_manager.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/edyn/simulation/island_manager.cpp b/src/edyn/simulation/island_manager.cpp
index f360ceb..533f335 100644
--- a/src/edyn/simulation/island_manager.cpp
+++ b/src/edyn/simulation/island_manager.cpp
@@ -661,9 +661,23 @@ void island_manager::set_procedural(entt::entity entity, bool is_procedural) {
     } else {
         if (auto *resident = m_registry->try_get<island_resident>(entity)) {
             entt::sparse_set island_entities;
-            island_entities.push(resident->island_entity);
+            auto island_entity = resident->island_entity;
             resident->island_entity = entt::null;
 
+            // A new entity does not reside in an island yet.
+            if (island_entity != entt::null) {
+                island_entities.push(island_entity);
+
+                // Other entities could have been connected through this one.
+                if (!m_islands_to_split.contains(island_entity)) {
+                    m_islands_to_split.push(island_entity);
+                }
+
+                if (!m_islands_to_wake_up.contains(island_entity)) {
+                    m_islands_to_wake_up.push(island_entity);
+                }
+            }
+
             m_registry->emplace<multi_island_resident>(entity, std::move(island_entities));
             m_registry->remove<island_resident>(entity);
         }
-- 
2.43.0


From ee9321c47b3bbd498baf954a82ad4b6e71e39e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:17 +0000
Subject: [PATCH 32/74] fix: contact points between bodies that cease to be
 dynamic must be destroyed with their manifold

---
 src/edyn/util/rigidbody.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/edyn/util/rigidbody.cpp b/src/edyn/util/rigidbody.cpp
index 6ece9be..e201333 100644
--- a/src/edyn/util/rigidbody.cpp
+++ b/src/edyn/util/rigidbody.cpp
@@ -41,6 +41,7 @@
 #include "edyn/util/gravity_util.hpp"
 #include "edyn/simulation/stepper_async.hpp"
 #include "edyn/context/settings.hpp"
+#include <vector>
 
 namespace edyn {
 
@@ -595,16 +596,23 @@ void rigidbody_apply_kind(entt::registry &registry, entt::entity entity, rigidbo
     // at least one dynamic entity.
     if (!procedural) {
         auto manifold_view = registry.view<contact_manifold>();
+        std::vector<entt::entity> manifold_entities;
+
         visit_edges(registry, entity, [&](entt::entity edge_entity) {
             if (manifold_view.contains(edge_entity)) {
                 auto [manifold] = manifold_view.get(edge_entity);
                 auto other = manifold.body[0] == entity ? manifold.body[1] : manifold.body[0];
 
                 if (!registry.all_of<procedural_tag>(other)) {
-                    registry.destroy(edge_entity);
+                    manifold_entities.push_back(edge_entity);
                 }
             }
         });
+
+        for (auto manifold_entity : manifold_entities) {
+            clear_contact_manifold(registry, manifold_entity);
+            registry.destroy(manifold_entity);
+        }
     }
 }
 
-- 
2.43.0


From b6c2793bbf82fd880e8d7763d8d4efb2492e7ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:17 +0000
Subject: [PATCH 33/74] fix: clearing the collision exclusions of a body when
 an excluded one does not exist anymore

---
 src/edyn/util/exclude_collision.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/edyn/util/exclude_collision.cpp b/src/edyn/util/exclude_collision.cpp
index 7dbaed4..607b0e2 100644
--- a/src/edyn/util/exclude_collision.cpp
+++ b/src/edyn/util/exclude_collision.cpp
@@ -62,7 +62,11 @@ void clear_collision_exclusion(entt::registry &registry, entt::entity entity) {
 
     for (unsigned i = 0; i < size; ++i) {
         auto other = exclude.entity[i];
-        remove_collision_exclusion_one_way(registry, other, entity);
+
+        // The other entity could have been destroyed since.
+        if (registry.valid(other) && registry.all_of<collision_exclusion>(other)) {
+            remove_collision_exclusion_one_way(registry, other, entity);
+        }
     }
 
     registry.remove<collision_exclusion>(entity);
-- 
2.43.0


From 7112847904829eb9c0442fb32194121f46625b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:01 +0000
Subject: [PATCH 34/74] fix: manifolds of a body which had its shape removed
 must be destroyed

---
 src/edyn/collision/broadphase.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/edyn/collision/broadphase.cpp b/src/edyn/collision/broadphase.cpp
index f0aa6eb..5cccf4f 100644
--- a/src/edyn/collision/broadphase.cpp
+++ b/src/edyn/collision/broadphase.cpp
@@ -122,11 +122,17 @@ void broadphase::destroy_separated_manifolds() {
 
     // Destroy manifolds of pairs whose AABBs are not intersecting anymore.
     for (auto [entity, manifold] : manifold_view.each()) {
-        auto [b0] = aabb_view.get(manifold.body[0]);
-        auto [b1] = aabb_view.get(manifold.body[1]);
-        const auto separation_offset = vector3_one * -m_separation_threshold;
+        // Bodies which had their shape removed cannot be in contact.
+        auto separated = !aabb_view.contains(manifold.body[0]) || !aabb_view.contains(manifold.body[1]);
+
+        if (!separated) {
+            auto [b0] = aabb_view.get(manifold.body[0]);
+            auto [b1] = aabb_view.get(manifold.body[1]);
+            const auto separation_offset = vector3_one * -m_separation_threshold;
+            separated = !intersect(b0.inset(separation_offset), b1);
+        }
 
-        if (!intersect(b0.inset(separation_offset), b1)) {
+        if (separated) {
             clear_contact_manifold(*m_registry, entity);
             m_registry->destroy(entity);
         }
-- 
2.43.0


From 5d196628536e1fb4c43b49c24dc769c4793051de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:53 +0000
Subject: [PATCH 35/74] fix: shapes replaced before they are initialized must
 be skipped

---
 src/edyn/util/polyhedron_shape_initializer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/edyn/util/polyhedron_shape_initializer.cpp b/src/edyn/util/polyhedron_shape_initializer.cpp
index b32ed60..46c1621 100644
--- a/src/edyn/util/polyhedron_shape_initializer.cpp
+++ b/src/edyn/util/polyhedron_shape_initializer.cpp
@@ -67,6 +67,9 @@ void polyhedron_shape_initializer::init_new_shapes() {
     auto compound_view = m_registry->view<compound_shape>();
 
     for (auto entity : m_new_polyhedron_shapes) {
+        // Shape might've been replaced or cleared.
+        if (!polyhedron_view.contains(entity)) continue;
+
         auto [polyhedron] = polyhedron_view.get(entity);
         auto [orn] = orn_view.get(entity);
         // A new `rotated_mesh` is assigned to it, replacing another reference
@@ -78,6 +81,8 @@ void polyhedron_shape_initializer::init_new_shapes() {
     }
 
     for (auto entity : m_new_compound_shapes) {
+        if (!compound_view.contains(entity)) continue;
+
         auto [compound] = compound_view.get(entity);
         auto [orn] = orn_view.get(entity);
         auto prev_rotated_entity = entt::entity{entt::null};
-- 
2.43.0


From c72bf65b823fec65edd1946e22986b230fda54fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:34 +0000
Subject: [PATCH 36/74] fix: constraints cleared before they are assigned to an
 island must be skipped

---
 src/edyn/simulation/island_manager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/edyn/simulation/island_manager.cpp b/src/edyn/simulation/island_manager.cpp
index 533f335..0e12571 100644
--- a/src/edyn/simulation/island_manager.cpp
+++ b/src/edyn/simulation/island_manager.cpp
@@ -135,6 +135,9 @@ void island_manager::init_new_nodes_and_edges() {
     }
 
     for (auto edge_entity : m_new_graph_edges) {
+        // Constraint might've been cleared.
+        if (!edge_view.contains(edge_entity)) continue;
+
         auto &edge = edge_view.get<graph_edge>(edge_entity);
         auto node_entities = graph.edge_node_entities(edge.edge_index);
 
-- 
2.43.0


From 66257923d5b0ba6ec1b00723b1d1d5afe5e97f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:59 +0000
Subject: [PATCH 37/74] fix: restitution must not be applied to contacts
 without material

---
 src/edyn/dynamics/restitution_solver.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/edyn/dynamics/restitution_solver.cpp b/src/edyn/dynamics/restitution_solver.cpp
index 16c6258..c6837b9 100644
--- a/src/edyn/dynamics/restitution_solver.cpp
+++ b/src/edyn/dynamics/restitution_solver.cpp
@@ -18,6 +18,7 @@
 #include "edyn/comp/origin.hpp"
 #include "edyn/comp/mass.hpp"
 #include "edyn/comp/inertia.hpp"
+#include "edyn/comp/material.hpp"
 #include "edyn/math/geom.hpp"
 #include "edyn/math/transform.hpp"
 #include "edyn/dynamics/solver.hpp"
@@ -91,6 +92,7 @@ bool solve_restitution_iteration(entt::registry &registry, entt::entity island_e
     auto origin_view = registry.view<origin>();
     auto procedural_view = registry.view<procedural_tag>();
     auto static_view = registry.view<static_tag>();
+    auto material_view = registry.view<material>();
     auto restitution_view = registry.view<contact_manifold_with_restitution>();
     auto manifold_view = registry.view<contact_manifold, contact_manifold_state>();
     auto cp_view = registry.view<contact_point, contact_point_material, contact_point_impulse, contact_point_list>();
@@ -367,6 +369,9 @@ bool solve_restitution_iteration(entt::registry &registry, entt::entity island_e
 
             auto [manifold, manifold_state] = manifold_view.get(edge_entity);
 
+            // Ignore contacts with bodies that have no material, such as sensors.
+            if (!material_view.contains(manifold.body[0]) || !material_view.contains(manifold.body[1])) return;
+
             // Ignore manifolds which are not penetrating fast enough.
             auto local_min_relvel = get_manifold_min_relvel(manifold, manifold_state, body_view, origin_view, static_view, cp_view);
 
-- 
2.43.0


From 6a547571f8b49bc2f93e1e6efac369d49c3d9f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:48 +0000
Subject: [PATCH 38/74] fix: polyhedron against the cap of a cylinder which is
 not along the x axis

---
 .../collision/collide/collide_polyhedron_cylinder.cpp     | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/edyn/collision/collide/collide_polyhedron_cylinder.cpp b/src/edyn/collision/collide/collide_polyhedron_cylinder.cpp
index d26b8d8..0558e6c 100644
--- a/src/edyn/collision/collide/collide_polyhedron_cylinder.cpp
+++ b/src/edyn/collision/collide/collide_polyhedron_cylinder.cpp
@@ -209,8 +209,8 @@ void collide(const polyhedron_shape &shA, const cylinder_shape &shB,
 
         // Check if circle and polygon edges intersect.
         for (size_t i = 0; i < limitA; ++i) {
-            // Transform vertices to `shB` (cylinder) space. The cylinder axis
-            // is the x-axis.
+            // Transform vertices to `shB` (cylinder) space and discard the
+            // component along the cylinder axis.
             auto idx0A = polygon.hull[i];
             auto idx1A = polygon.hull[(i + 1) % sizeA];
             auto v0A = polygon.vertices[idx0A];
@@ -220,8 +220,8 @@ void collide(const polyhedron_shape &shA, const cylinder_shape &shB,
             auto v1B = to_object_space(v1A, posB, ornB);
 
             scalar s[2];
-            auto num_points = intersect_line_circle(to_vector2_zy(v0B),
-                                                    to_vector2_zy(v1B),
+            auto num_points = intersect_line_circle(vector2{v0B[cyl_ax_idx_ortho0], v0B[cyl_ax_idx_ortho1]},
+                                                    vector2{v1B[cyl_ax_idx_ortho0], v1B[cyl_ax_idx_ortho1]},
                                                     shB.radius, s[0], s[1]);
 
             for (size_t j = 0; j < num_points; ++j) {
-- 
2.43.0


From 097a17b2f49c2db82ed42fce15f26bc2468b33a6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:34:06 +0000
Subject: [PATCH 39/74] fix: polyhedron vertex against the cap of a cylinder
 has no edges to intersect

---
 src/edyn/collision/collide/collide_polyhedron_cylinder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/edyn/collision/collide/collide_polyhedron_cylinder.cpp b/src/edyn/collision/collide/collide_polyhedron_cylinder.cpp
index 0558e6c..ab52a3d 100644
--- a/src/edyn/collision/collide/collide_polyhedron_cylinder.cpp
+++ b/src/edyn/collision/collide/collide_polyhedron_cylinder.cpp
@@ -204,8 +204,9 @@ void collide(const polyhedron_shape &shA, const cylinder_shape &shB,
         // face could be contained within the polygon.
         size_t num_edge_intersections = 0;
 
+        // A single vertex has no edges.
         const auto sizeA = polygon.hull.size();
-        const auto limitA = sizeA == 2 ? 1 : sizeA;
+        const auto limitA = sizeA > 2 ? sizeA : sizeA - 1;
 
         // Check if circle and polygon edges intersect.
         for (size_t i = 0; i < limitA; ++i) {
-- 
2.43.0


From e54deed1522a95e5912be49201d635203fd37d11 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:38:32 +0000
Subject: [PATCH 40/74] fix: nodes and edges already in an island must not
 cause others to be merged or created

---
 src/edyn/simulation/island_manager.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/edyn/simulation/island_manager.cpp b/src/edyn/simulation/island_manager.cpp
index 0e12571..4fd441b 100644
--- a/src/edyn/simulation/island_manager.cpp
+++ b/src/edyn/simulation/island_manager.cpp
@@ -125,10 +125,15 @@ void island_manager::init_new_nodes_and_edges() {
     auto &graph = m_registry->ctx().get<entity_graph>();
     auto node_view = m_registry->view<graph_node>();
     auto edge_view = m_registry->view<graph_edge>();
+    auto resident_view = m_registry->view<const island_resident>();
     std::set<entity_graph::index_type> procedural_node_indices;
 
+    // Ignore nodes and edges which have been assigned to an island already,
+    // which could be the case if they became procedural or if islands were
+    // merged before they were initialized.
     for (auto entity : m_new_graph_nodes) {
-        if (m_registry->any_of<procedural_tag>(entity)) {
+        if (m_registry->any_of<procedural_tag>(entity) &&
+            std::get<0>(resident_view.get(entity)).island_entity == entt::null) {
             auto &node = node_view.get<graph_node>(entity);
             procedural_node_indices.insert(node.node_index);
         }
@@ -137,6 +142,7 @@ void island_manager::init_new_nodes_and_edges() {
     for (auto edge_entity : m_new_graph_edges) {
         // Constraint might've been cleared.
         if (!edge_view.contains(edge_entity)) continue;
+        if (std::get<0>(resident_view.get(edge_entity)).island_entity != entt::null) continue;
 
         auto &edge = edge_view.get<graph_edge>(edge_entity);
         auto node_entities = graph.edge_node_entities(edge.edge_index);
@@ -160,7 +166,6 @@ void island_manager::init_new_nodes_and_edges() {
     std::vector<entt::entity> connected_nodes;
     std::vector<entt::entity> connected_edges;
     std::vector<entt::entity> island_entities;
-    auto resident_view = m_registry->view<const island_resident>();
     auto procedural_view = m_registry->view<procedural_tag>();
 
     graph.reach(
-- 
2.43.0


From f531ddd5030bd32c5b6dda7ed442230d2a269f6d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:39:22 +0000
Subject: [PATCH 41/74] fix: body made procedural must not remain in islands it
 is not connected to

---
 src/edyn/simulation/island_manager.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/edyn/simulation/island_manager.cpp b/src/edyn/simulation/island_manager.cpp
index 4fd441b..0696da5 100644
--- a/src/edyn/simulation/island_manager.cpp
+++ b/src/edyn/simulation/island_manager.cpp
@@ -664,6 +664,12 @@ void island_manager::set_procedural(entt::entity entity, bool is_procedural) {
                 resident->island_entities.clear(); // Must clear because `on_destroy_multi_island_resident` will be called.
                 m_registry->remove<multi_island_resident>(entity);
                 m_registry->emplace<island_resident>(entity, merged_island_entity);
+
+                // It might not be connected to the other entities in these islands
+                // anymore.
+                if (!m_islands_to_split.contains(merged_island_entity)) {
+                    m_islands_to_split.push(merged_island_entity);
+                }
             }
         }
     } else {
-- 
2.43.0


From 3ad63364deec63a08ac612cd22bd8bd986b78c5e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:40:29 +0000
Subject: [PATCH 42/74] fix: an island merged with one that could have been
 split must be split

---
 src/edyn/simulation/island_manager.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/edyn/simulation/island_manager.cpp b/src/edyn/simulation/island_manager.cpp
index 0696da5..9cdb490 100644
--- a/src/edyn/simulation/island_manager.cpp
+++ b/src/edyn/simulation/island_manager.cpp
@@ -345,6 +345,14 @@ entt::entity island_manager::merge_islands(const std::vector<entt::entity> &isla
 
     insert_to_island(island_entity, all_nodes, all_edges);
 
+    // If any of the merged islands could have been split, so could the result.
+    for (auto other_island_entity : other_island_entities) {
+        if (m_islands_to_split.contains(other_island_entity) &&
+            !m_islands_to_split.contains(island_entity)) {
+            m_islands_to_split.push(island_entity);
+        }
+    }
+
     // Destroy empty islands.
     m_registry->destroy(other_island_entities.begin(), other_island_entities.end());
 
-- 
2.43.0


From 843304a6c5ccb210e182cebfb1a8192b6849a058 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:41:30 +0000
Subject: [PATCH 43/74] fix: sphere center outside a box by a distance that is
 rounded to zero

---
 src/edyn/collision/collide/collide_sphere_box.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/edyn/collision/collide/collide_sphere_box.cpp b/src/edyn/collision/collide/collide_sphere_box.cpp
index e728163..e8ffdae 100644
--- a/src/edyn/collision/collide/collide_sphere_box.cpp
+++ b/src/edyn/collision/collide/collide_sphere_box.cpp
@@ -27,8 +27,10 @@ void collide(const sphere_shape &shA, const box_shape &shB,
     // If `posA_in_B` lies inside the box, `closest_point_box_outside`
     // returns `posA_in_B`.
     if (d_sqr <= EDYN_EPSILON) {
-        // Sphere center lies inside box.
-        center_distance = -closest_point_box_inside(shB.half_extents, posA_in_B, closest, normalB);
+        // Sphere center lies inside box. Use the clamped position since it could
+        // be outside by a tiny distance.
+        const auto clamped = closest;
+        center_distance = -closest_point_box_inside(shB.half_extents, clamped, closest, normalB);
         normal_attachment = contact_normal_attachment::normal_on_B;
     } else {
         center_distance = std::sqrt(d_sqr);
-- 
2.43.0


From 5ff7fcb6cd0266b93b10ea1f7d2edfc8ed09ed8b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:43:31 +0000
Subject: [PATCH 44/74] fix: shape removed and set again before it is
 initialized in the broad phase

---
 src/edyn/collision/broadphase.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/edyn/collision/broadphase.cpp b/src/edyn/collision/broadphase.cpp
index 5cccf4f..14e7c1b 100644
--- a/src/edyn/collision/broadphase.cpp
+++ b/src/edyn/collision/broadphase.cpp
@@ -85,6 +85,8 @@ void broadphase::init_new_aabb_entities() {
     for (auto entity : m_new_aabb_entities) {
         // Entity might've been cleared.
         if (!aabb_view.contains(entity)) continue;
+        // An entity is present more than once if its AABB was replaced.
+        if (m_registry->all_of<tree_resident>(entity)) continue;
 
         auto &aabb = aabb_view.get<AABB>(entity);
         bool procedural = procedural_view.contains(entity);
-- 
2.43.0


From 3c736401014c893611f58cf654ad0a9911549f2c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:47:02 +0000
Subject: [PATCH 45/74] fix: raycasts must not hit shapes outside of the
 segment

---
 src/edyn/collision/raycast.cpp | 56 +++++++++++++++++++++++++++++-----
 1 file changed, 49 insertions(+), 7 deletions(-)

diff --git a/src/edyn/collision/raycast.cpp b/src/edyn/collision/raycast.cpp
index 2df0f3d..83fae2e 100644
--- a/src/edyn/collision/raycast.cpp
+++ b/src/edyn/collision/raycast.cpp
@@ -100,8 +100,13 @@ shape_raycast_result shape_raycast(const box_shape &box, const raycast_context &
         }
     }
 
+    // Check if intersection range intersects the [0, 1] interval.
+    if (t_max < 0 || t_min > 1) {
+        return {};
+    }
+
     auto result = shape_raycast_result{};
-    result.fraction = t_min;
+    result.fraction = clamp_unit(t_min);
     result.normal = box.get_face_normal(face_idx, ctx.orn);
     result.info_var = box_raycast_info{face_idx};
 
@@ -122,18 +127,33 @@ shape_raycast_result shape_raycast(const cylinder_shape &cylinder, const raycast
     auto ray_dir = ctx.p1 - ctx.p0;
     auto cyl_dir = cyl_vertices[1] - cyl_vertices[0];
     auto cyl_dir_norm = normalize(cyl_dir);
-    auto face_idx = dot(ctx.p0 - ctx.pos, cyl_dir) < 0 ? size_t(0) : size_t(1);
+    // The cap face the ray could enter through.
+    auto face_idx = dot(ray_dir, cyl_dir) > 0 ? size_t(0) : size_t(1);
     auto face_normal = cyl_dir_norm * (face_idx == 0 ? -1 : 1);
     auto radius = cylinder.radius;
     auto radius_sqr = square(radius);
 
+    // An intersection must be in the segment, unless the segment starts inside.
+    auto clamp_fraction = [&](scalar &fraction) {
+        if (fraction < 0) {
+            auto axial = dot(ctx.p0 - ctx.pos, cyl_dir_norm);
+            auto radial_sqr = length_sqr(ctx.p0 - ctx.pos - cyl_dir_norm * axial);
+
+            if (std::abs(axial) <= cylinder.half_length && radial_sqr <= radius_sqr) {
+                fraction = 0;
+            }
+        }
+
+        return fraction >= 0 && fraction <= 1;
+    };
+
     if (intersect_result.kind == intersect_ray_cylinder_result::kind::parallel_directions) {
         // Cylinder and segment are parallel. Check if segment intersects a
         // cap face.
         vector3 closest; scalar fraction;
         auto dist_sqr = closest_point_line(ctx.p0, ray_dir, cyl_vertices[face_idx], fraction, closest);
 
-        if (dist_sqr > radius_sqr) {
+        if (dist_sqr > radius_sqr || !clamp_fraction(fraction)) {
             return {};
         }
 
@@ -154,6 +174,10 @@ shape_raycast_result shape_raycast(const cylinder_shape &cylinder, const raycast
 
     if (projections[0] > 0 && projections[1] < 0) {
         // Intersection lies on the side of cylinder.
+        if (!clamp_fraction(fraction_in)) {
+            return {};
+        }
+
         auto result = shape_raycast_result{};
         result.fraction = fraction_in;
         result.normal = intersect_result.normal / std::sqrt(intersect_result.dist_sqr);
@@ -167,7 +191,7 @@ shape_raycast_result shape_raycast(const cylinder_shape &cylinder, const raycast
     intersection = lerp(ctx.p0, ctx.p1, t);
     auto dist_sqr = distance_sqr(intersection, cyl_vertices[face_idx]);
 
-    if (dist_sqr > radius_sqr) {
+    if (!(dist_sqr <= radius_sqr) || !clamp_fraction(t)) {
         return {};
     }
 
@@ -182,7 +206,7 @@ shape_raycast_result shape_raycast(const cylinder_shape &cylinder, const raycast
 shape_raycast_result shape_raycast(const sphere_shape &sphere, const raycast_context &ctx) {
     scalar t;
 
-    if (!intersect_ray_sphere(ctx.p0, ctx.p1, ctx.pos, sphere.radius, t)) {
+    if (!intersect_ray_sphere(ctx.p0, ctx.p1, ctx.pos, sphere.radius, t) || t > 1) {
         return {};
     }
 
@@ -210,7 +234,7 @@ shape_raycast_result shape_raycast(const capsule_shape &capsule, const raycast_c
     auto intersect_hemisphere = [&](size_t hemi_idx) -> shape_raycast_result {
         scalar fraction;
 
-        if (!intersect_ray_sphere(ctx.p0, ctx.p1, vertices[hemi_idx], radius, fraction)) {
+        if (!intersect_ray_sphere(ctx.p0, ctx.p1, vertices[hemi_idx], radius, fraction) || fraction > 1) {
             return {};
         }
 
@@ -241,7 +265,20 @@ shape_raycast_result shape_raycast(const capsule_shape &capsule, const raycast_c
     };
 
     if (projections[0] > 0 && projections[1] < 0) {
-        // Intersection lies on the side of cylindrical section.
+        // Intersection lies on the side of cylindrical section. It must be in
+        // the segment, unless the segment starts inside.
+        if (u_in < 0) {
+            vector3 closest; scalar s;
+
+            if (closest_point_segment(vertices[0], vertices[1], ctx.p0, s, closest) > radius * radius) {
+                return {};
+            }
+
+            u_in = 0;
+        } else if (u_in > 1) {
+            return {};
+        }
+
         auto result = shape_raycast_result{};
         result.fraction = u_in;
         result.normal = intersect_result.normal / std::sqrt(intersect_result.dist_sqr);
@@ -370,6 +407,11 @@ shape_raycast_result shape_raycast(const plane_shape &plane, const raycast_conte
         }
     } else {
         auto t = e / d;
+
+        if (t < 0 || t > 1) {
+            return {};
+        }
+
         auto result = shape_raycast_result{};
         result.fraction = t;
         result.normal = plane.normal;
-- 
2.43.0


From 30f7ea9f1b53ce0e8f567f6f0caac25c0d828221 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:47:02 +0000
Subject: [PATCH 46/74] fix: normals of raycasts against the side of cylinders
 and against capsules

---
 src/edyn/collision/raycast.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/edyn/collision/raycast.cpp b/src/edyn/collision/raycast.cpp
index 83fae2e..f1fb3ef 100644
--- a/src/edyn/collision/raycast.cpp
+++ b/src/edyn/collision/raycast.cpp
@@ -180,7 +180,7 @@ shape_raycast_result shape_raycast(const cylinder_shape &cylinder, const raycast
 
         auto result = shape_raycast_result{};
         result.fraction = fraction_in;
-        result.normal = intersect_result.normal / std::sqrt(intersect_result.dist_sqr);
+        result.normal = normalize(intersection - lerp(cyl_vertices[0], cyl_vertices[1], projections[0] / length(cyl_dir)));
         result.info_var = cylinder_raycast_info{cylinder_feature::side_edge};
         return result;
     }
@@ -238,8 +238,8 @@ shape_raycast_result shape_raycast(const capsule_shape &capsule, const raycast_c
             return {};
         }
 
-        auto intersection = lerp(ctx.p0, ctx.p1, u_in);
-        auto normal = normalize(intersection - ctx.pos);
+        auto intersection = lerp(ctx.p0, ctx.p1, fraction);
+        auto normal = normalize(intersection - vertices[hemi_idx]);
 
         auto result = shape_raycast_result{};
         result.fraction = fraction;
@@ -281,7 +281,7 @@ shape_raycast_result shape_raycast(const capsule_shape &capsule, const raycast_c
 
         auto result = shape_raycast_result{};
         result.fraction = u_in;
-        result.normal = intersect_result.normal / std::sqrt(intersect_result.dist_sqr);
+        result.normal = normalize(intersection - lerp(vertices[0], vertices[1], projections[0] / length_sqr(cap_dir)));
         result.info_var = capsule_raycast_info{capsule_feature::side};
 
         return result;
-- 
2.43.0


From ee5016c60d64e9db0e72b0c89ad501aa543b5cc4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:49:07 +0000
Subject: [PATCH 47/74] fix: raycast parallel to a face of a polyhedron

---
 src/edyn/collision/raycast.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edyn/collision/raycast.cpp b/src/edyn/collision/raycast.cpp
index f1fb3ef..f09c38a 100644
--- a/src/edyn/collision/raycast.cpp
+++ b/src/edyn/collision/raycast.cpp
@@ -314,7 +314,7 @@ shape_raycast_result shape_raycast(const polyhedron_shape &poly, const raycast_c
         if (std::abs(denom) < EDYN_EPSILON) {
             // Segment does not intersect polyhedron if there's any face that is
             // parallel to it and it lies in front of the face.
-            if (dist > 0) {
+            if (dist < 0) {
                 return {};
             }
         } else {
-- 
2.43.0


From 191aace90450706bc2b13da512418945b67d833b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:52:09 +0000
Subject: [PATCH 48/74] fix: intersection of a ray nearly parallel to the axis
 of a cylinder

---
 src/edyn/math/geom.cpp | 44 +++++++++++++++---------------------------
 1 file changed, 16 insertions(+), 28 deletions(-)

diff --git a/src/edyn/math/geom.cpp b/src/edyn/math/geom.cpp
index 29c02e5..262b169 100644
--- a/src/edyn/math/geom.cpp
+++ b/src/edyn/math/geom.cpp
@@ -1222,33 +1222,27 @@ intersect_ray_cylinder_result intersect_ray_cylinder(vector3 p0, vector3 p1,
                                                      scalar radius, scalar half_length,
                                                      coordinate_axis axis,
                                                      scalar &fraction_in, scalar &fraction_out) noexcept {
-    // Let a plane be defined by the ray and the vector orthogonal to the
-    // cylinder axis and the ray (i.e. their cross product). This plane cuts
-    // the cylinder and their intersection is an ellipse with vertical half
-    // length (aka semi-minor axis) equals to the cylinder radius and horizontal
-    // half length (aka semi-major axis) greater than or equal to the radius.
-    // The distance between the ray and the cylinder axis gives us the value of
-    // `y` in the ellipse equation `x^2/a^2 + y^2/b^2 = 1`. Solving for `x` will
-    // give us information to calculate the exact point where the ray intersects
-    // the cylinder.
-    // Detailed derivation: https://xissburg.github.io/2022-10-03-intersecting-line-against-cylinder
-
+    // Project the ray onto the plane orthogonal to the cylinder axis, where the
+    // cylinder is a circle. The closest point to the center of the circle gives
+    // the distance between the lines and half the length of the chord gives the
+    // offset to the intersections. The components along the cylinder axis are
+    // removed before multiplying vectors to prevent loss of significance when the
+    // directions are nearly parallel.
     auto cyl_dir = coordinate_axis_vector(axis, orn);
-    vector3 cyl_vertices[] = {
-        pos + cyl_dir * half_length,
-        pos - cyl_dir * half_length
-    };
-    scalar s, t;
+    auto d = p1 - p0;
+    auto m = p0 - pos;
+    auto d_proj = d - cyl_dir * dot(d, cyl_dir);
+    auto m_proj = m - cyl_dir * dot(m, cyl_dir);
+    auto dd = length_sqr(d_proj);
 
-    if (!closest_point_line_line(cyl_vertices[0], cyl_vertices[1], p0, p1, s, t)) {
+    if (!(dd > EDYN_EPSILON * length_sqr(d))) {
         return {intersect_ray_cylinder_result::kind::parallel_directions};
     }
 
-    auto radius_sqr = square(radius);
-    auto closest_cyl = lerp(cyl_vertices[0], cyl_vertices[1], s);
-    auto closest_ray = lerp(p0, p1, t);
-    auto normal = closest_ray - closest_cyl;
+    auto t = -dot(m_proj, d_proj) / dd;
+    auto normal = m_proj + d_proj * t;
     auto dist_sqr = length_sqr(normal);
+    auto radius_sqr = square(radius);
 
     // Distance between lines bigger than radius.
     if (dist_sqr > radius_sqr) {
@@ -1256,13 +1250,7 @@ intersect_ray_cylinder_result intersect_ray_cylinder(vector3 p0, vector3 p1,
     }
 
     // Offset `t` backwards to place it where the intersection happens.
-    auto d = p1 - p0;
-    auto e = cyl_vertices[1] - cyl_vertices[0];
-    auto dd = dot(d, d);
-    auto ee = dot(e, e);
-    auto de = dot(d, e);
-    auto delta_sqr = (radius_sqr - dist_sqr) * ee / (dd * ee - de * de);
-    auto delta = std::sqrt(delta_sqr);
+    auto delta = std::sqrt((radius_sqr - dist_sqr) / dd);
     fraction_in = t - delta;
     fraction_out = t + delta;
     return {intersect_ray_cylinder_result::kind::intersects, dist_sqr, normal};
-- 
2.43.0


From 779512fc9891b111e47828412ad9f59061ba7cce Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:57:39 +0000
Subject: [PATCH 49/74] fix: sequential simulation must not catch up with the
 time it was paused for

---
 include/edyn/simulation/stepper_sequential.hpp | 1 +
 src/edyn/simulation/stepper_sequential.cpp     | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/include/edyn/simulation/stepper_sequential.hpp b/include/edyn/simulation/stepper_sequential.hpp
index 52146aa..c06d019 100644
--- a/include/edyn/simulation/stepper_sequential.hpp
+++ b/include/edyn/simulation/stepper_sequential.hpp
@@ -42,6 +42,7 @@ private:
     double m_last_time {};
     bool m_multithreaded;
     bool m_paused;
+    bool m_resuming {false};
 };
 
 }
diff --git a/src/edyn/simulation/stepper_sequential.cpp b/src/edyn/simulation/stepper_sequential.cpp
index ee0313b..b6ff03a 100644
--- a/src/edyn/simulation/stepper_sequential.cpp
+++ b/src/edyn/simulation/stepper_sequential.cpp
@@ -42,6 +42,12 @@ void stepper_sequential::update(double time) {
         return;
     }
 
+    // Do not catch up with the time that has passed while paused.
+    if (m_resuming) {
+        m_last_time = time;
+        m_resuming = false;
+    }
+
     auto sim_time = get_simulation_timestamp();
     auto elapsed = std::max(time - m_last_time, 0.0);
     m_accumulated_time += elapsed;
@@ -147,6 +153,7 @@ void stepper_sequential::step_simulation(double time) {
 }
 
 void stepper_sequential::set_paused(bool paused) {
+    m_resuming = m_resuming || (m_paused && !paused);
     m_paused = paused;
     m_accumulated_time = 0;
 }
-- 
2.43.0


From a87ff1c3d2ab06c3327772cda2ea5789c4be3716 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 08:29:15 +0000
Subject: [PATCH 50/74] fix: bending spring of a cvjoint at a right angle must
 not be NaN

---
 src/edyn/constraints/cvjoint_constraint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edyn/constraints/cvjoint_constraint.cpp b/src/edyn/constraints/cvjoint_constraint.cpp
index c16d1f9..6bf28dc 100644
--- a/src/edyn/constraints/cvjoint_constraint.cpp
+++ b/src/edyn/constraints/cvjoint_constraint.cpp
@@ -205,7 +205,7 @@ void cvjoint_constraint::prepare(
     if (bend_stiffness > 0) {
         auto bend_axis = cross(rotate(bodyA.orn, rest_direction), twist_axisB);
         auto bend_axis_len = length(bend_axis);
-        auto angle = std::asin(bend_axis_len);
+        auto angle = std::asin(std::min(bend_axis_len, scalar(1)));
 
         if (bend_axis_len > EDYN_EPSILON) {
             bend_axis /= bend_axis_len;
-- 
2.43.0


From 3e96667f1b781ed01e27ef17380b79b68891cd1b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 08:29:16 +0000
Subject: [PATCH 51/74] fix: bending damping of a cvjoint must not depend on
 its twisting damping

---
 src/edyn/constraints/cvjoint_constraint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edyn/constraints/cvjoint_constraint.cpp b/src/edyn/constraints/cvjoint_constraint.cpp
index 6bf28dc..5940a55 100644
--- a/src/edyn/constraints/cvjoint_constraint.cpp
+++ b/src/edyn/constraints/cvjoint_constraint.cpp
@@ -193,7 +193,7 @@ void cvjoint_constraint::prepare(
 
         auto friction_impulse = bend_friction_torque * dt;
 
-        if (twist_damping > 0) {
+        if (bend_damping > 0) {
             friction_impulse += std::abs(angspd_rel) * bend_damping * dt;
         }
 
-- 
2.43.0


From 45ae99142f2403fdab8db11993f9806a2b929573 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 08:36:14 +0000
Subject: [PATCH 52/74] fix: convex hulls of small polygons must not collapse

---
 src/edyn/util/shape_util.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/edyn/util/shape_util.cpp b/src/edyn/util/shape_util.cpp
index 46b9502..8799ce3 100644
--- a/src/edyn/util/shape_util.cpp
+++ b/src/edyn/util/shape_util.cpp
@@ -112,7 +112,8 @@ size_t split_hull_edge(const std::vector<vector2> &points,
         }
     }
 
-    if (dot(points[idx] - v0, dir) > tolerance) {
+    // `dir` has the length of the edge.
+    if (dot(points[idx] - v0, dir) > tolerance * length(edge)) {
         hull.insert(hull.begin() + i1, idx);
         auto num_splits = split_hull_edge(points, hull, i0, i1, tolerance);
 
-- 
2.43.0


From c1ae85128545eff275154dcc9fd292455b708616 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 08:44:51 +0000
Subject: [PATCH 53/74] fix: friction of a point constraint without relative
 angular velocity has no impulse

---
 src/edyn/constraints/point_constraint.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/edyn/constraints/point_constraint.cpp b/src/edyn/constraints/point_constraint.cpp
index 282ebf4..9a5704d 100644
--- a/src/edyn/constraints/point_constraint.cpp
+++ b/src/edyn/constraints/point_constraint.cpp
@@ -52,7 +52,8 @@ void point_constraint::store_applied_impulses(const std::vector<scalar> &impulse
         applied_impulse[i] = impulses[row_idx++];
     }
 
-    if (friction_torque > 0) {
+    // There's no friction row if there was no relative angular velocity.
+    if (friction_torque > 0 && row_idx < impulses.size()) {
         applied_friction_impulse = impulses[row_idx++];
     }
 }
-- 
2.43.0


From 1a76294c6a111705ac768a005a7c2a9f30682987 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 08:49:17 +0000
Subject: [PATCH 54/74] fix: room for all the rows of a generic constraint

---
 include/edyn/dynamics/row_cache.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/edyn/dynamics/row_cache.hpp b/include/edyn/dynamics/row_cache.hpp
index a77dcfc..2d66254 100644
--- a/include/edyn/dynamics/row_cache.hpp
+++ b/include/edyn/dynamics/row_cache.hpp
@@ -54,7 +54,8 @@ struct row_cache {
  * `row_cache` for better performance during the solver iterations.
  */
 struct constraint_row_prep_cache {
-    static constexpr unsigned max_rows = 16;
+    // A `generic_constraint` with everything enabled has 24 rows.
+    static constexpr unsigned max_rows = 32;
     static constexpr unsigned max_constraints = 8;
 
     struct element {
-- 
2.43.0


From 48ba46f18b4e463c3e1fb86c5600e4e705c92f9b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 08:49:17 +0000
Subject: [PATCH 55/74] fix: motor of a hinge constraint must reach its speed

---
 src/edyn/constraints/hinge_constraint.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/edyn/constraints/hinge_constraint.cpp b/src/edyn/constraints/hinge_constraint.cpp
index 2a47cc5..fd00861 100644
--- a/src/edyn/constraints/hinge_constraint.cpp
+++ b/src/edyn/constraints/hinge_constraint.cpp
@@ -174,6 +174,7 @@ void hinge_constraint::prepare(
 
         auto &options = cache.get_options();
         options.error = -speed;
+        options.erp = 1; // Reach the full speed.
     }
 }
 
-- 
2.43.0


From a0e9622d04e8374cc2e18b4c7d6576b53c5e0a79 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 09:40:07 +0000
Subject: [PATCH 56/74] fix: transmit the id of an entity query

---
 include/edyn/networking/packet/query_entity.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/edyn/networking/packet/query_entity.hpp b/include/edyn/networking/packet/query_entity.hpp
index 563e01e..273d0eb 100644
--- a/include/edyn/networking/packet/query_entity.hpp
+++ b/include/edyn/networking/packet/query_entity.hpp
@@ -16,6 +16,7 @@ struct query_entity {
 
 template<typename Archive>
 void serialize(Archive &archive, query_entity &packet) {
+    archive(packet.id);
     archive(packet.entities);
 }
 
-- 
2.43.0


From e58e5066af6ef9a384ccedb2020d0e12a7acc77e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 09:40:07 +0000
Subject: [PATCH 57/74] fix: serialize the id of a material

---
 include/edyn/comp/material.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/edyn/comp/material.hpp b/include/edyn/comp/material.hpp
index dd37ab6..2292d10 100644
--- a/include/edyn/comp/material.hpp
+++ b/include/edyn/comp/material.hpp
@@ -38,6 +38,7 @@ void serialize(Archive &archive, material &m) {
     archive(m.roll_friction);
     archive(m.stiffness);
     archive(m.damping);
+    archive(m.id);
 }
 
 }
-- 
2.43.0


From 89fd9e01ad3831bfd626667c030a91b42dfb8ebf Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 09:40:07 +0000
Subject: [PATCH 58/74] fix: reading a collision exclusion must not keep
 previous entities

---
 include/edyn/comp/collision_exclusion.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/edyn/comp/collision_exclusion.hpp b/include/edyn/comp/collision_exclusion.hpp
index beb2da4..d7b1a74 100644
--- a/include/edyn/comp/collision_exclusion.hpp
+++ b/include/edyn/comp/collision_exclusion.hpp
@@ -37,6 +37,10 @@ void serialize(Archive &archive, collision_exclusion &excl) {
     archive(num_entities);
     num_entities = std::min(num_entities, collision_exclusion::max_exclusions);
 
+    if constexpr(Archive::is_input::value) {
+        excl.entity.fill(entt::null);
+    }
+
     for (unsigned i = 0; i < num_entities; ++i) {
         archive(excl.entity[i]);
     }
-- 
2.43.0


From 5351152a00f8800ed4022e5071346dc9559f8c7d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 09:44:21 +0000
Subject: [PATCH 59/74] fix: check the indices of a convex mesh read from an
 archive

---
 include/edyn/shapes/convex_mesh.hpp | 11 ++++++++++-
 src/edyn/shapes/convex_mesh.cpp     | 23 +++++++++++++++++++++++
 2 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/include/edyn/shapes/convex_mesh.hpp b/include/edyn/shapes/convex_mesh.hpp
index a6488f9..a2bf61d 100644
--- a/include/edyn/shapes/convex_mesh.hpp
+++ b/include/edyn/shapes/convex_mesh.hpp
@@ -170,6 +170,10 @@ struct convex_mesh {
     void calculate_relevant_edges();
 
     bool validate() const;
+
+    // Whether all faces refer to existing indices and all indices refer to
+    // existing vertices.
+    bool has_valid_indices() const;
 };
 
 /**
@@ -214,7 +218,12 @@ void serialize(Archive &archive, convex_mesh &mesh) {
     archive(mesh.faces);
 
     if constexpr(Archive::is_input::value) {
-        mesh.initialize();
+        // Do not trust the indices since input could be incomplete or corrupted.
+        if (mesh.has_valid_indices()) {
+            mesh.initialize();
+        } else {
+            mesh = {};
+        }
     }
 }
 
diff --git a/src/edyn/shapes/convex_mesh.cpp b/src/edyn/shapes/convex_mesh.cpp
index 92f2f72..9a7af63 100644
--- a/src/edyn/shapes/convex_mesh.cpp
+++ b/src/edyn/shapes/convex_mesh.cpp
@@ -271,6 +271,29 @@ bool convex_mesh::validate() const {
     return true;
 }
 
+bool convex_mesh::has_valid_indices() const {
+    if (faces.empty() || faces.size() % 2 != 0) {
+        return false;
+    }
+
+    for (size_t i = 0; i < faces.size(); i += 2) {
+        auto first = faces[i];
+        auto count = faces[i + 1];
+
+        if (count < 3 || count > indices.size() || first > indices.size() - count) {
+            return false;
+        }
+    }
+
+    for (auto index : indices) {
+        if (index >= vertices.size()) {
+            return false;
+        }
+    }
+
+    return true;
+}
+
 rotated_mesh make_rotated_mesh(const convex_mesh &mesh, const quaternion &orn) {
     auto rotated = rotated_mesh{};
     rotated.vertices.resize(mesh.vertices.size());
-- 
2.43.0


From 65870123de93369234b02985caddce8660ee7ebe Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 09:52:26 +0000
Subject: [PATCH 60/74] fix: discard malformed pools of a registry snapshot

---
 include/edyn/networking/packet/asset_sync.hpp |  3 +--
 .../edyn/networking/packet/create_entity.hpp  |  3 +--
 .../edyn/networking/packet/entity_entered.hpp |  3 +--
 .../networking/packet/entity_response.hpp     |  3 +--
 .../networking/packet/registry_snapshot.hpp   | 27 +++++++++++++++++--
 .../edyn/networking/util/pool_snapshot.hpp    | 11 +++++++-
 6 files changed, 39 insertions(+), 11 deletions(-)

diff --git a/include/edyn/networking/packet/asset_sync.hpp b/include/edyn/networking/packet/asset_sync.hpp
index b56c27c..f2284f8 100644
--- a/include/edyn/networking/packet/asset_sync.hpp
+++ b/include/edyn/networking/packet/asset_sync.hpp
@@ -28,8 +28,7 @@ void serialize(Archive &archive, asset_sync_response &packet) {
     archive(packet.id);
     archive(packet.entity);
     //archive(packet.timestamp); // Unnecessary in this context.
-    archive(packet.entities);
-    archive(packet.pools);
+    serialize_entities_and_pools(archive, packet);
 }
 
 }
diff --git a/include/edyn/networking/packet/create_entity.hpp b/include/edyn/networking/packet/create_entity.hpp
index aa1a6d7..00c263f 100644
--- a/include/edyn/networking/packet/create_entity.hpp
+++ b/include/edyn/networking/packet/create_entity.hpp
@@ -14,8 +14,7 @@ struct create_entity : public registry_snapshot {};
 template<typename Archive>
 void serialize(Archive &archive, create_entity &packet) {
     archive(packet.timestamp);
-    archive(packet.entities);
-    archive(packet.pools);
+    serialize_entities_and_pools(archive, packet);
 }
 
 }
diff --git a/include/edyn/networking/packet/entity_entered.hpp b/include/edyn/networking/packet/entity_entered.hpp
index a1e2273..46fcf29 100644
--- a/include/edyn/networking/packet/entity_entered.hpp
+++ b/include/edyn/networking/packet/entity_entered.hpp
@@ -23,8 +23,7 @@ void serialize(Archive &archive, entity_entered::asset_info &info) {
     archive(info.entity);
     archive(info.asset);
     archive(info.owner);
-    archive(info.entities);
-    archive(info.pools);
+    serialize_entities_and_pools(archive, info);
 }
 
 template<typename Archive>
diff --git a/include/edyn/networking/packet/entity_response.hpp b/include/edyn/networking/packet/entity_response.hpp
index df693a4..ef8c872 100644
--- a/include/edyn/networking/packet/entity_response.hpp
+++ b/include/edyn/networking/packet/entity_response.hpp
@@ -17,8 +17,7 @@ template<typename Archive>
 void serialize(Archive &archive, entity_response &packet) {
     archive(packet.id);
     //archive(packet.timestamp); // Unnecessary in this context.
-    archive(packet.entities);
-    archive(packet.pools);
+    serialize_entities_and_pools(archive, packet);
 }
 
 }
diff --git a/include/edyn/networking/packet/registry_snapshot.hpp b/include/edyn/networking/packet/registry_snapshot.hpp
index 2a0f8c0..766f0e8 100644
--- a/include/edyn/networking/packet/registry_snapshot.hpp
+++ b/include/edyn/networking/packet/registry_snapshot.hpp
@@ -2,6 +2,7 @@
 #define EDYN_NETWORKING_UTIL_REGISTRY_SNAPSHOT_HPP
 
 #include <vector>
+#include <algorithm>
 #include "edyn/replication/entity_map.hpp"
 #include "edyn/util/tuple_util.hpp"
 #include "edyn/networking/util/pool_snapshot.hpp"
@@ -33,10 +34,32 @@ struct registry_snapshot {
 };
 
 template<typename Archive>
-void serialize(Archive &archive, registry_snapshot &snapshot) {
-    archive(snapshot.timestamp);
+void serialize_entities_and_pools(Archive &archive, registry_snapshot &snapshot) {
     archive(snapshot.entities);
     archive(snapshot.pools);
+
+    if constexpr(Archive::is_input::value) {
+        // Discard malformed pools, i.e. the ones with an unknown component type
+        // or that refer to entities which are not present.
+        auto num_entities = snapshot.entities.size();
+        auto &pools = snapshot.pools;
+        pools.erase(std::remove_if(pools.begin(), pools.end(), [num_entities](auto &&pool) {
+            if (!pool.ptr) {
+                return true;
+            }
+
+            auto &indices = pool.ptr->entity_indices;
+            return std::any_of(indices.begin(), indices.end(), [num_entities](auto index) {
+                return index >= num_entities;
+            });
+        }), pools.end());
+    }
+}
+
+template<typename Archive>
+void serialize(Archive &archive, registry_snapshot &snapshot) {
+    archive(snapshot.timestamp);
+    serialize_entities_and_pools(archive, snapshot);
 }
 
 }
diff --git a/include/edyn/networking/util/pool_snapshot.hpp b/include/edyn/networking/util/pool_snapshot.hpp
index cca267d..9371e64 100644
--- a/include/edyn/networking/util/pool_snapshot.hpp
+++ b/include/edyn/networking/util/pool_snapshot.hpp
@@ -26,7 +26,10 @@ void serialize(Archive &archive, pool_snapshot &pool) {
         archive(data);
         auto input = memory_input_archive(data.data(), data.size());
         pool.ptr = (*g_make_pool_snapshot_data)(pool.component_index);
-        pool.ptr->read(input);
+
+        if (pool.ptr) {
+            pool.ptr->read(input);
+        }
     } else {
         auto output = memory_output_archive(data);
         pool.ptr->write(output);
@@ -39,6 +42,12 @@ auto create_make_pool_snapshot_data_function([[maybe_unused]] std::tuple<Compone
     return [](component_index_type component_index) {
         std::tuple<Components...> components;
         auto ptr = std::unique_ptr<pool_snapshot_data>{};
+
+        // Index could've come from malformed data.
+        if (component_index >= sizeof...(Components)) {
+            return ptr;
+        }
+
         visit_tuple(components, component_index, [&](auto &&c) {
             using CompType = std::decay_t<decltype(c)>;
             ptr.reset(new pool_snapshot_data_impl<CompType>);
-- 
2.43.0


From b48f1738e37dc2d3fcfa44dbe9c8568a24f204b7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 09:52:26 +0000
Subject: [PATCH 61/74] fix: reading a compound shape without nodes

---
 include/edyn/shapes/compound_shape.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/edyn/shapes/compound_shape.hpp b/include/edyn/shapes/compound_shape.hpp
index bc64149..6b362de 100644
--- a/include/edyn/shapes/compound_shape.hpp
+++ b/include/edyn/shapes/compound_shape.hpp
@@ -118,7 +118,10 @@ void serialize(Archive &archive, compound_shape &shape) {
 
     if constexpr(Archive::is_input::value) {
         shape.tree.clear();
-        shape.finish();
+
+        if (!shape.nodes.empty()) {
+            shape.finish();
+        }
     }
 }
 
-- 
2.43.0


From cf4e12b8f8b62454c9cbeeae89f19a39c3745160 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 10:04:36 +0000
Subject: [PATCH 62/74] fix: coordinate axis read from malformed input must be
 valid

---
 include/edyn/math/coordinate_axis.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/edyn/math/coordinate_axis.hpp b/include/edyn/math/coordinate_axis.hpp
index ddbfdaf..6d8611d 100644
--- a/include/edyn/math/coordinate_axis.hpp
+++ b/include/edyn/math/coordinate_axis.hpp
@@ -46,6 +46,14 @@ constexpr vector3 coordinate_axis_vector(coordinate_axis axis, const quaternion
 template<typename Archive>
 void serialize(Archive &archive, coordinate_axis &axis) {
     serialize_enum(archive, axis);
+
+    if constexpr(Archive::is_input::value) {
+        // Value is used as an index thus it must be valid even if the input
+        // is malformed.
+        if (axis > coordinate_axis::z) {
+            axis = coordinate_axis::x;
+        }
+    }
 }
 
 }
-- 
2.43.0


From b93b77438d299101054938f34c6a6760db714537 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 11:04:18 +0000
Subject: [PATCH 63/74] fix: announce new contacts in sequential execution and
 single steps

contact_started_tag is documented to be added to all new contacts after
the solver step, but only the asynchronous worker's main loop did it.
---
 src/edyn/simulation/simulation_worker.cpp  | 1 +
 src/edyn/simulation/stepper_sequential.cpp | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/src/edyn/simulation/simulation_worker.cpp b/src/edyn/simulation/simulation_worker.cpp
index 12dc573..a784df0 100644
--- a/src/edyn/simulation/simulation_worker.cpp
+++ b/src/edyn/simulation/simulation_worker.cpp
@@ -540,6 +540,7 @@ void simulation_worker::on_step_simulation(message<msg::step_simulation> &) {
     nphase.update(true);
     m_island_manager.update(m_last_time);
     m_solver.update(true);
+    nphase.patch_new_contacts();
 
     if (settings.clear_actions_func) {
         (*settings.clear_actions_func)(m_registry);
diff --git a/src/edyn/simulation/stepper_sequential.cpp b/src/edyn/simulation/stepper_sequential.cpp
index b6ff03a..1784028 100644
--- a/src/edyn/simulation/stepper_sequential.cpp
+++ b/src/edyn/simulation/stepper_sequential.cpp
@@ -96,6 +96,8 @@ void stepper_sequential::update(double time) {
 
         m_solver.update(m_multithreaded);
 
+        nphase.patch_new_contacts();
+
         if (settings.clear_actions_func) {
             (*settings.clear_actions_func)(*m_registry);
         }
@@ -142,6 +144,7 @@ void stepper_sequential::step_simulation(double time) {
     nphase.update(m_multithreaded);
     m_island_manager.update(m_last_time);
     m_solver.update(m_multithreaded);
+    nphase.patch_new_contacts();
 
     if (settings.clear_actions_func) {
         (*settings.clear_actions_func)(*m_registry);
-- 
2.43.0


From 094fd86ef97aa2bacba37bb0f2c7caf502e94ed9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 12:24:12 +0000
Subject: [PATCH 64/74] fix: answer asynchronous raycasts that have no
 candidates

---
 src/edyn/collision/raycast_service.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/edyn/collision/raycast_service.cpp b/src/edyn/collision/raycast_service.cpp
index 9353242..768ee9c 100644
--- a/src/edyn/collision/raycast_service.cpp
+++ b/src/edyn/collision/raycast_service.cpp
@@ -43,6 +43,9 @@ void raycast_service::run_broadphase(bool mt) {
 
 void raycast_service::finish_broadphase() {
     for (auto &ctx : m_broad_ctx) {
+        // There must be a result even if the ray does not come near anything.
+        m_results.try_emplace(ctx.id);
+
         for (auto entity : ctx.candidates) {
             auto &narrow_ctx = m_narrow_ctx.emplace_back();
             narrow_ctx.id = ctx.id;
-- 
2.43.0


From 3817d2992fb4354102fefd2703186602f7f5a6ae Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 12:24:12 +0000
Subject: [PATCH 65/74] fix: define query_aabb_async under the name it is
 declared

---
 src/edyn/collision/query_aabb.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/edyn/collision/query_aabb.cpp b/src/edyn/collision/query_aabb.cpp
index 3b2c77f..da1b18d 100644
--- a/src/edyn/collision/query_aabb.cpp
+++ b/src/edyn/collision/query_aabb.cpp
@@ -3,11 +3,11 @@
 
 namespace edyn {
 
-query_aabb_id_type query_island_aabb_async(entt::registry &registry, const AABB &aabb,
-                                           const query_aabb_delegate_type &delegate,
-                                           bool query_procedural,
-                                           bool query_non_procedural,
-                                           bool query_islands) {
+query_aabb_id_type query_aabb_async(entt::registry &registry, const AABB &aabb,
+                                    const query_aabb_delegate_type &delegate,
+                                    bool query_procedural,
+                                    bool query_non_procedural,
+                                    bool query_islands) {
     auto &stepper = registry.ctx().get<stepper_async>();
     return stepper.query_aabb(aabb, delegate, query_procedural, query_non_procedural, query_islands);
 }
-- 
2.43.0


From e2e51c98bb5db358020bb106ebe802bd51e66724 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 12:24:12 +0000
Subject: [PATCH 66/74] fix: box of a polyhedron that was just assigned has no
 rotated mesh yet

---
 src/edyn/sys/update_aabbs.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/edyn/sys/update_aabbs.cpp b/src/edyn/sys/update_aabbs.cpp
index 0c2e4d4..25f680b 100644
--- a/src/edyn/sys/update_aabbs.cpp
+++ b/src/edyn/sys/update_aabbs.cpp
@@ -23,7 +23,12 @@ AABB updated_aabb(const polyhedron_shape &polyhedron,
                   const vector3 &pos, const quaternion &orn) {
     // `shape_aabb(const polyhedron_shape &, ...)` rotates each vertex of a
     // polyhedron to calculate the AABB. Specialize `updated_aabb` for
-    // polyhedrons to use the rotated mesh.
+    // polyhedrons to use the rotated mesh, which does not exist yet if the shape
+    // has just been assigned.
+    if (!polyhedron.rotated) {
+        return shape_aabb(polyhedron, pos, orn);
+    }
+
     auto aabb = point_cloud_aabb(polyhedron.rotated->vertices);
     aabb.min += pos;
     aabb.max += pos;
-- 
2.43.0


From fff29f4238a83fc9f689afe55d9df873c9424f48 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 12:24:12 +0000
Subject: [PATCH 67/74] fix: islands solved in parallel must not write into the
 bodies they share

---
 src/edyn/dynamics/island_solver.cpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/edyn/dynamics/island_solver.cpp b/src/edyn/dynamics/island_solver.cpp
index 399a958..26977d6 100644
--- a/src/edyn/dynamics/island_solver.cpp
+++ b/src/edyn/dynamics/island_solver.cpp
@@ -274,6 +274,13 @@ scalar solve_position_constraints_each(entt::registry &registry, const std::vect
         inertia_world_inv inv_IA {matrix3x3_zero}, inv_IB{matrix3x3_zero};
         inertia_inv inv_IA_local{matrix3x3_zero}, inv_IB_local{matrix3x3_zero};
 
+        // Non-procedural entities are not moved by constraints and they can be
+        // present in multiple islands which are solved in parallel. Thus, give
+        // the solver a copy of their transform.
+        position np_posA, np_posB;
+        orientation np_ornA, np_ornB;
+        origin np_originA, np_originB;
+
         for (auto entity : entities) {
             auto [con] = con_view.get(entity);
             auto [posA, ornA] = body_view.template get<position, orientation>(con.body[0]);
@@ -289,6 +296,10 @@ scalar solve_position_constraints_each(entt::registry &registry, const std::vect
                 solver.inv_IA = &body_view.template get<inertia_world_inv>(con.body[0]);
                 solver.inv_IA_local = &body_view.template get<inertia_inv>(con.body[0]);
             } else {
+                np_posA = posA;
+                np_ornA = ornA;
+                solver.posA = &np_posA;
+                solver.ornA = &np_ornA;
                 solver.inv_mA = inv_mA;
                 solver.inv_IA = &inv_IA;
                 solver.inv_IA_local = &inv_IA_local;
@@ -299,6 +310,10 @@ scalar solve_position_constraints_each(entt::registry &registry, const std::vect
                 solver.inv_IB = &body_view.template get<inertia_world_inv>(con.body[1]);
                 solver.inv_IB_local = &body_view.template get<inertia_inv>(con.body[1]);
             } else {
+                np_posB = posB;
+                np_ornB = ornB;
+                solver.posB = &np_posB;
+                solver.ornB = &np_ornB;
                 solver.inv_mB = inv_mB;
                 solver.inv_IB = &inv_IB;
                 solver.inv_IB_local = &inv_IB_local;
@@ -307,6 +322,11 @@ scalar solve_position_constraints_each(entt::registry &registry, const std::vect
             if (origin_view.contains(con.body[0])) {
                 solver.originA = &origin_view.template get<origin>(con.body[0]);
                 solver.comA = origin_view.template get<center_of_mass>(con.body[0]);
+
+                if (!procedural_view.contains(con.body[0])) {
+                    np_originA = *solver.originA;
+                    solver.originA = &np_originA;
+                }
             } else {
                 solver.originA = nullptr;
             }
@@ -314,6 +334,11 @@ scalar solve_position_constraints_each(entt::registry &registry, const std::vect
             if (origin_view.contains(con.body[1])) {
                 solver.originB = &origin_view.template get<origin>(con.body[1]);
                 solver.comB = origin_view.template get<center_of_mass>(con.body[1]);
+
+                if (!procedural_view.contains(con.body[1])) {
+                    np_originB = *solver.originB;
+                    solver.originB = &np_originB;
+                }
             } else {
                 solver.originB = nullptr;
             }
-- 
2.43.0


From 4151202e4ec20a041180a1a364343c6ec44c3e8d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 12:24:12 +0000
Subject: [PATCH 68/74] fix: rows solved in parallel must not share dummy
 velocities

---
 include/edyn/dynamics/row_cache.hpp |  9 +++++++++
 src/edyn/dynamics/solver.cpp        | 15 ++++-----------
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/include/edyn/dynamics/row_cache.hpp b/include/edyn/dynamics/row_cache.hpp
index 2d66254..9c0647d 100644
--- a/include/edyn/dynamics/row_cache.hpp
+++ b/include/edyn/dynamics/row_cache.hpp
@@ -4,6 +4,8 @@
 #include <type_traits>
 #include <vector>
 #include <tuple>
+#include "edyn/comp/delta_angvel.hpp"
+#include "edyn/comp/delta_linvel.hpp"
 #include "edyn/config/config.h"
 #include "edyn/constraints/constraint_row.hpp"
 #include "edyn/constraints/constraint_row_options.hpp"
@@ -87,6 +89,11 @@ struct constraint_row_prep_cache {
     // are "consumed" per constraint.
     uint8_t current_constraint_index;
 
+    // Delta velocities of the non-procedural bodies, which always remain zero.
+    // Not shared among constraints because they can be solved in parallel.
+    delta_linvel dummy_dv;
+    delta_angvel dummy_dw;
+
     constraint_row_prep_cache() {
         clear();
     }
@@ -168,6 +175,8 @@ struct constraint_row_prep_cache {
     }
 
     void clear() {
+        dummy_dv = vector3_zero;
+        dummy_dw = vector3_zero;
         num_rows = 0;
         num_constraints = 0;
         current_constraint_index = 0;
diff --git a/src/edyn/dynamics/solver.cpp b/src/edyn/dynamics/solver.cpp
index 2fc68af..610d983 100644
--- a/src/edyn/dynamics/solver.cpp
+++ b/src/edyn/dynamics/solver.cpp
@@ -62,9 +62,6 @@ solver::~solver() {
     m_registry->clear<constraint_row_prep_cache>();
 }
 
-static thread_local delta_linvel dummy_dv {vector3_zero};
-static thread_local delta_angvel dummy_dw {vector3_zero};
-
 template<typename View, typename Func>
 auto make_view_for_each_task_func(View &view, Func &func) {
     return [&](unsigned start, unsigned end) {
@@ -118,8 +115,8 @@ void invoke_prepare_constraint(entt::registry &registry, entt::entity entity, C
         dvA = &body_view.template get<delta_linvel>(con.body[0]);
         dwA = &body_view.template get<delta_angvel>(con.body[0]);
     } else {
-        dvA = &dummy_dv;
-        dwA = &dummy_dw;
+        dvA = &cache.dummy_dv;
+        dwA = &cache.dummy_dw;
     }
 
     if (procedural_view.contains(con.body[1])) {
@@ -142,8 +139,8 @@ void invoke_prepare_constraint(entt::registry &registry, entt::entity entity, C
         dvB = &body_view.template get<delta_linvel>(con.body[1]);
         dwB = &body_view.template get<delta_angvel>(con.body[1]);
     } else {
-        dvB = &dummy_dv;
-        dwB = &dummy_dw;
+        dvB = &cache.dummy_dv;
+        dwB = &cache.dummy_dw;
     }
 
     auto originA = origin_view.contains(con.body[0]) ?
@@ -196,10 +193,6 @@ static void prepare_constraints(entt::registry &registry, scalar dt, bool mt) {
         }, con_view_tuple);
     };
 
-    // Ensure dummy delta velocities are always zero.
-    dummy_dv = vector3_zero;
-    dummy_dw = vector3_zero;
-
     const size_t max_sequential_size = 4;
     auto num_constraints = calculate_view_size(cache_view);
 
-- 
2.43.0


From 255e6827da7bcdd2b78ac6341380e60b0aef9006 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 12:24:12 +0000
Subject: [PATCH 69/74] fix: completion of a parallel task must see and free
 what the jobs did

---
 src/edyn/context/task.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/edyn/context/task.cpp b/src/edyn/context/task.cpp
index c275e14..c12dd6c 100644
--- a/src/edyn/context/task.cpp
+++ b/src/edyn/context/task.cpp
@@ -136,7 +136,7 @@ void parallel_for_async_job_func(job::data_type &data) {
         ctx->task(begin, end);
 
         const auto progress = end - begin;
-        const auto completed = ctx->completed_counter.fetch_add(progress, std::memory_order_relaxed) + progress;
+        const auto completed = ctx->completed_counter.fetch_add(progress, std::memory_order_acq_rel) + progress;
         EDYN_ASSERT(completed <= total);
 
         if (completed == total) {
@@ -147,7 +147,7 @@ void parallel_for_async_job_func(job::data_type &data) {
         }
     }
 
-    auto ref_count = ctx->ref_counter.fetch_sub(1, std::memory_order_relaxed) - 1;
+    auto ref_count = ctx->ref_counter.fetch_sub(1, std::memory_order_acq_rel) - 1;
     EDYN_ASSERT(ref_count >= 0);
 
     if (ref_count == 0) {
-- 
2.43.0


From 27e992cfef6649c49c9e8261d04cdea858788dac Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 12:24:12 +0000
Subject: [PATCH 70/74] fix: results of a step can refer to bodies destroyed in
 the meantime

---
 src/edyn/simulation/stepper_async.cpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/edyn/simulation/stepper_async.cpp b/src/edyn/simulation/stepper_async.cpp
index 4525a41..33c9439 100644
--- a/src/edyn/simulation/stepper_async.cpp
+++ b/src/edyn/simulation/stepper_async.cpp
@@ -131,11 +131,23 @@ void stepper_async::on_step_update(message<msg::step_update> &msg) {
     // Only calculate delay if the sim time was set.
     m_should_calculate_presentation_delay = true;
 
+    // Discards a new edge which refers to a body that has been destroyed here
+    // while the message was on its way.
+    auto discard = [&](entt::entity local_entity) {
+        m_entity_map.erase_local(local_entity);
+        registry.destroy(local_entity);
+    };
+
     auto &ops = msg.content.ops;
     ops.execute(registry, m_entity_map, [&](operation_base *op) {
         auto op_type = op->operation_type();
         auto remote_entity = op->entity;
 
+        // The entity itself could also have been destroyed in the meantime.
+        if (!m_entity_map.contains(remote_entity)) {
+            return;
+        }
+
         // Insert entity mappings for new entities into the current op.
         if (op_type == registry_operation_type::create) {
             auto local_entity = m_entity_map.at(remote_entity);
@@ -156,6 +168,16 @@ void stepper_async::on_step_update(message<msg::step_update> &msg) {
             }
         }
 
+        if (op_type == registry_operation_type::emplace && op->payload_type_any_of<contact_manifold>()) {
+            auto local_entity = m_entity_map.at(remote_entity);
+            auto &manifold = registry.get<contact_manifold>(local_entity);
+
+            if (!registry.valid(manifold.body[0]) || !registry.valid(manifold.body[1])) {
+                discard(local_entity);
+                return;
+            }
+        }
+
         // Insert edges in the graph for constraints.
         if (op_type == registry_operation_type::emplace &&
            (op->payload_type_any_of(constraints_tuple) || op->payload_type_any_of<null_constraint>()))
@@ -168,6 +190,10 @@ void stepper_async::on_step_update(message<msg::step_update> &msg) {
                 create_graph_edge_for_constraints(registry, local_entity, graph, constraints_tuple);
                 create_graph_edge_for_constraint<null_constraint>(registry, local_entity, graph);
             }
+
+            if (!registry.any_of<graph_edge>(local_entity)) {
+                discard(local_entity);
+            }
         }
     });
 
-- 
2.43.0


From aee2266406d9ed38415f6e9e3e7c199b34b5038c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 12:24:12 +0000
Subject: [PATCH 71/74] fix: set the center of mass of a body created in the
 same frame

---
 src/edyn/simulation/stepper_async.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/edyn/simulation/stepper_async.cpp b/src/edyn/simulation/stepper_async.cpp
index 33c9439..35eaa13 100644
--- a/src/edyn/simulation/stepper_async.cpp
+++ b/src/edyn/simulation/stepper_async.cpp
@@ -357,6 +357,9 @@ void stepper_async::material_table_changed() {
 }
 
 void stepper_async::set_center_of_mass(entt::entity entity, const vector3 &com) {
+    // Must sync existing component changes to ensure the simulation registry
+    // contains the latest changes before processing the `set_com` message.
+    sync();
     send_message_to_worker<msg::set_com>(entity, com);
 }
 
-- 
2.43.0


From 4443fbd02d2dc52e39addd0645cbedc7352a8790 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 12:47:11 +0000
Subject: [PATCH 72/74] fix: keep remaining entities of a sequence when some of
 them cannot be mapped

---
 src/edyn/replication/map_child_entity.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/edyn/replication/map_child_entity.cpp b/src/edyn/replication/map_child_entity.cpp
index 76c9317..a5bd87c 100644
--- a/src/edyn/replication/map_child_entity.cpp
+++ b/src/edyn/replication/map_child_entity.cpp
@@ -4,10 +4,23 @@
 namespace edyn::internal {
 
 static void remove_null_entities_in_sequence(entt::meta_sequence_container &seq) {
-    // Move null entities to the end.
-    auto end = std::remove_if(seq.begin(), seq.end(), [](auto &&elem) {
-        return elem.template cast<entt::entity>() == entt::null;
-    });
+    // Move null entities to the end. Elements must be assigned by reference since
+    // assigning to the value of an iterator does not affect the container.
+    size_t count = 0;
+
+    for (size_t i = 0; i < seq.size(); ++i) {
+        auto entity = seq[i].cast<entt::entity>();
+
+        if (entity != entt::null) {
+            seq[i].cast<entt::entity &>() = entt::null;
+            seq[count++].cast<entt::entity &>() = entity;
+        }
+    }
+
+    auto end = seq.begin();
+    for (size_t i = 0; i < count; ++i) {
+        ++end;
+    }
 
     // Remove null if container is dynamic.
     while (end != seq.end()) {
-- 
2.43.0


From 3da37b48e44bdaf78108d3f940ba570729060dff Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 12:47:11 +0000
Subject: [PATCH 73/74] fix: destroy operations being overwritten by move
 assignment in registry_operation

---
 include/edyn/replication/registry_operation.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/edyn/replication/registry_operation.hpp b/include/edyn/replication/registry_operation.hpp
index aedc3b7..db3c210 100644
--- a/include/edyn/replication/registry_operation.hpp
+++ b/include/edyn/replication/registry_operation.hpp
@@ -301,6 +301,14 @@ public:
     }
 
     registry_operation & operator=(registry_operation &&other) {
+        if (this == &other) {
+            return *this;
+        }
+
+        for (auto *op : operations) {
+            op->~operation_base();
+        }
+
         data_blocks = std::move(other.data_blocks);
         operations = std::move(other.operations);
 
-- 
2.43.0


From b22086aa113db81875d5a995e257327272f5eb0b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 13:21:52 +0000
Subject: [PATCH 74/74] fix: apply change of rigid body kind in the simulation
 thread at once

---
 src/edyn/simulation/simulation_worker.cpp | 9 ++++++++-
 src/edyn/simulation/stepper_async.cpp     | 8 ++++++++
 src/edyn/util/rigidbody.cpp               | 3 ---
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/edyn/simulation/simulation_worker.cpp b/src/edyn/simulation/simulation_worker.cpp
index a784df0..0dab79a 100644
--- a/src/edyn/simulation/simulation_worker.cpp
+++ b/src/edyn/simulation/simulation_worker.cpp
@@ -710,7 +710,14 @@ void simulation_worker::on_wake_up_residents(message<msg::wake_up_residents> &ms
 
 void simulation_worker::on_change_rigidbody_kind(message<msg::change_rigidbody_kind> &msg) {
     for (auto [entity, kind] : msg.content.changes) {
-        internal::rigidbody_apply_kind(m_registry, m_entity_map.at(entity), kind, m_island_manager);
+        auto local_entity = m_entity_map.at(entity);
+
+        // Tags have already been replaced in the main registry.
+        m_op_observer->set_active(false);
+        internal::rigidbody_replace_kind_tags(m_registry, local_entity, kind);
+        m_op_observer->set_active(true);
+
+        internal::rigidbody_apply_kind(m_registry, local_entity, kind, m_island_manager);
     }
 }
 
diff --git a/src/edyn/simulation/stepper_async.cpp b/src/edyn/simulation/stepper_async.cpp
index 35eaa13..0c155bf 100644
--- a/src/edyn/simulation/stepper_async.cpp
+++ b/src/edyn/simulation/stepper_async.cpp
@@ -373,6 +373,14 @@ void stepper_async::set_rigidbody_kind(entt::entity entity, rigidbody_kind kind)
     // Must sync existing component changes to ensure the simulation registry
     // contains the latest changes before processing the `change_rigidbody_kind` message.
     sync();
+
+    // Replace tags immediately in main registry. The effective change will happen
+    // in the simulation thread, where the tags must not be replaced before the
+    // message is processed, thus do not replicate this change.
+    m_op_observer->set_active(false);
+    internal::rigidbody_replace_kind_tags(*m_registry, entity, kind);
+    m_op_observer->set_active(true);
+
     auto msg = msg::change_rigidbody_kind{};
     msg.changes.emplace_back(entity, kind);
     send_message_to_worker<msg::change_rigidbody_kind>(std::move(msg));
diff --git a/src/edyn/util/rigidbody.cpp b/src/edyn/util/rigidbody.cpp
index e201333..94a06ea 100644
--- a/src/edyn/util/rigidbody.cpp
+++ b/src/edyn/util/rigidbody.cpp
@@ -504,9 +504,6 @@ bool rigidbody_has_shape(const entt::registry &registry, entt::entity entity) {
 
 void rigidbody_set_kind(entt::registry &registry, entt::entity entity, rigidbody_kind kind) {
     if (auto *stepper = registry.ctx().find<stepper_async>()) {
-        // Replace tags immediately in main registry. The effective change will happen
-        // in the simulation thread.
-        internal::rigidbody_replace_kind_tags(registry, entity, kind);
         internal::rigidbody_assert_supports_kind(registry, entity, kind);
         stepper->set_rigidbody_kind(entity, kind);
     } else {
-- 
2.43.0

