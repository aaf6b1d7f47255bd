From 477609f78c6adffdb62e998f5b1b94c59d7e2f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:50 +0000
Subject: [PATCH 01/10] fix: round returns a new array instead of rounding the
 receiver in place

---
 src/skspatial/objects/_base_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skspatial/objects/_base_array.py b/src/skspatial/objects/_base_array.py
index f9aae04..6e4f514 100644
--- a/src/skspatial/objects/_base_array.py
+++ b/src/skspatial/objects/_base_array.py
@@ -122,7 +122,7 @@ class _BaseArray(np.ndarray, _BaseSpatial):
         Point([1.  , 2.  , 3.53])
 
         """
-        return np.around(self, decimals=decimals, out=self)
+        return self.__class__(np.around(self.to_array(), decimals=decimals))
 
 
 class _BaseArray1D(_BaseArray):
-- 
2.43.0


From cf9e2678517703e10efbdb50b584806de7f0b4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:50 +0000
Subject: [PATCH 02/10] fix: classify a triangle with two close pairs of sides
 as isosceles

---
 src/skspatial/objects/triangle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skspatial/objects/triangle.py b/src/skspatial/objects/triangle.py
index da21687..a376d79 100644
--- a/src/skspatial/objects/triangle.py
+++ b/src/skspatial/objects/triangle.py
@@ -577,7 +577,7 @@ class Triangle(_BaseSpatial):
         if n_pairs_close == 3:
             return 'equilateral'
 
-        if n_pairs_close == 1:
+        if n_pairs_close >= 1:
             return 'isosceles'
 
         return 'scalene'
-- 
2.43.0


From b3ee31a27e59c22d142964f67d2dbc76b2ca7021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:50 +0000
Subject: [PATCH 03/10] fix: give LineSegment a dimension so that it can be
 plotted with plotter

---
 src/skspatial/objects/line_segment.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/skspatial/objects/line_segment.py b/src/skspatial/objects/line_segment.py
index 749e4ea..4d8f5a8 100644
--- a/src/skspatial/objects/line_segment.py
+++ b/src/skspatial/objects/line_segment.py
@@ -54,6 +54,8 @@ class LineSegment(_BaseSpatial):
         self.point_a = Point(point_a)
         self.point_b = Point(point_b)
 
+        self.dimension = self.point_a.dimension
+
         if self.point_a.is_close(self.point_b):
             raise ValueError("The endpoints must not be equal.")
 
-- 
2.43.0


From 5c217b1623a5110fe7b791af88f525ec3b725b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:50 +0000
Subject: [PATCH 04/10] fix: reject line segment endpoints of different
 dimensions

---
 src/skspatial/objects/line_segment.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/skspatial/objects/line_segment.py b/src/skspatial/objects/line_segment.py
index 4d8f5a8..0aca8b7 100644
--- a/src/skspatial/objects/line_segment.py
+++ b/src/skspatial/objects/line_segment.py
@@ -32,7 +32,7 @@ class LineSegment(_BaseSpatial):
     Raises
     ------
     ValueError
-        If the two endpoints are equal.
+        If the two endpoints are equal or have different dimensions.
 
     Examples
     --------
@@ -54,6 +54,9 @@ class LineSegment(_BaseSpatial):
         self.point_a = Point(point_a)
         self.point_b = Point(point_b)
 
+        if self.point_a.dimension != self.point_b.dimension:
+            raise ValueError("The points must have the same dimension.")
+
         self.dimension = self.point_a.dimension
 
         if self.point_a.is_close(self.point_b):
-- 
2.43.0


From b4d9195459403bc81a03100fdd8f7ee50de00b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:50 +0000
Subject: [PATCH 05/10] fix: reject a NaN radius for circles and spheres

---
 src/skspatial/objects/_base_sphere.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skspatial/objects/_base_sphere.py b/src/skspatial/objects/_base_sphere.py
index bb297d0..cb6117e 100644
--- a/src/skspatial/objects/_base_sphere.py
+++ b/src/skspatial/objects/_base_sphere.py
@@ -15,7 +15,7 @@ class _BaseSphere(_BaseSpatial):
     """Private parent class for Circle and Sphere."""
 
     def __init__(self, point: array_like, radius: float):
-        if radius <= 0:
+        if not radius > 0:
             raise ValueError("The radius must be positive.")
 
         self.point = Point(point)
-- 
2.43.0


From 5d3e6011c3c334048af684bbe522a83f12aae1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:35 +0000
Subject: [PATCH 06/10] fix: put both caps of a best-fit cylinder at the
 extreme points along its axis

---
 src/skspatial/objects/cylinder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skspatial/objects/cylinder.py b/src/skspatial/objects/cylinder.py
index 0362fe6..020b263 100644
--- a/src/skspatial/objects/cylinder.py
+++ b/src/skspatial/objects/cylinder.py
@@ -633,7 +633,7 @@ class Cylinder(_BaseSpatial, _ToPointsMixin):
         axis = Line(point=center, direction=unit_vector)
         points_1d = axis.transform_points(points)
         point_a = axis.project_point(points[np.argmin(points_1d)])
-        length = point_a.distance_point(center) * 2
+        length = np.max(points_1d) - np.min(points_1d)
         vector_ab = unit_vector * length
 
         return cls(point_a, vector_ab, radius)
-- 
2.43.0


From e4bdecac73953778e948eaa2b9f69f817e041553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:38 +0000
Subject: [PATCH 07/10] fix: intersect tangent circles whose rounding makes the
 half chord imaginary

---
 src/skspatial/objects/circle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skspatial/objects/circle.py b/src/skspatial/objects/circle.py
index b821adb..faa9b03 100644
--- a/src/skspatial/objects/circle.py
+++ b/src/skspatial/objects/circle.py
@@ -281,7 +281,7 @@ class Circle(_BaseSphere):
 
         a = (self.radius**2 - other.radius**2 + d**2) / (2 * d)
 
-        h = math.sqrt(self.radius**2 - a**2)
+        h = math.sqrt(max(self.radius**2 - a**2, 0))
 
         point_middle = self.point + a * Vector.from_points(self.point, other.point) / d
 
-- 
2.43.0


From 53f9067b388a0872c63aa34510927454a3797b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:38 +0000
Subject: [PATCH 08/10] fix: angles of thin triangles no longer leave the
 domain of acos

---
 src/skspatial/objects/triangle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skspatial/objects/triangle.py b/src/skspatial/objects/triangle.py
index a376d79..71e9042 100644
--- a/src/skspatial/objects/triangle.py
+++ b/src/skspatial/objects/triangle.py
@@ -415,7 +415,7 @@ class Triangle(_BaseSpatial):
         else:
             raise ValueError("The vertex must be 'A', 'B', or 'C'.")
 
-        return math.acos(arg)
+        return math.acos(np.clip(arg, -1, 1))
 
     def centroid(self) -> Point:
         """
-- 
2.43.0


From bc0db980ce803e222d7698df091c40f1058c91e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:02 +0000
Subject: [PATCH 09/10] fix: arithmetic results that are not a valid spatial
 array become plain ndarrays

---
 src/skspatial/objects/_base_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skspatial/objects/_base_array.py b/src/skspatial/objects/_base_array.py
index 6e4f514..b56f559 100644
--- a/src/skspatial/objects/_base_array.py
+++ b/src/skspatial/objects/_base_array.py
@@ -51,7 +51,7 @@ class _BaseArray(np.ndarray, _BaseSpatial):
         try:
             return type(self)(array)
         except Exception:
-            return array
+            return np.asarray(array)
 
     def to_array(self) -> np.ndarray:
         """
-- 
2.43.0


From b529e24f7375039b9cb5e0a5d694462993ad08fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:57 +0000
Subject: [PATCH 10/10] fix: arithmetic on spatial arrays no longer recurses up
 to the recursion limit

__new__ applied np.isfinite to a view of the same class, whose __array_wrap__
called __new__ again; with a raised recursion limit 2 * Vector([1, 2]) crashed.
---
 src/skspatial/objects/_base_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skspatial/objects/_base_array.py b/src/skspatial/objects/_base_array.py
index b56f559..61bc1e0 100644
--- a/src/skspatial/objects/_base_array.py
+++ b/src/skspatial/objects/_base_array.py
@@ -23,7 +23,7 @@ class _BaseArray(np.ndarray, _BaseSpatial):
         if np.size(array) == 0:
             raise ValueError("The array must not be empty.")
 
-        if not np.isfinite(array).all():
+        if not np.isfinite(np.asarray(array)).all():
             raise ValueError("The values must all be finite.")
 
         # We cast the input array to be our class type.
-- 
2.43.0

