From 8411bc34e32f4d0a33eeca1525a6a3f35edd6d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:14 +0000
Subject: [PATCH 01/67] fix: fracture never ends when the cuts fall on the
 extremes of the polygon

---
 gdspy/path.py    | 84 +++++++++++-------------------------------------
 gdspy/polygon.py | 70 ++++++++++++++++++++++++++++------------
 2 files changed, 68 insertions(+), 86 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 20c02f7..15ae9a2 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -37,9 +37,8 @@ import warnings
 import itertools
 import struct
 
-from gdspy import clipper
 from gdspy.hobby import _hobby
-from gdspy.polygon import PolygonSet
+from gdspy.polygon import PolygonSet, _fracture_once
 
 _halfpi = 0.5 * numpy.pi
 _angle_dict = {"l": _halfpi, "r": -_halfpi, "ll": numpy.pi, "rr": -numpy.pi}
@@ -546,27 +545,12 @@ class FlexPath(object):
                         ii = 0
                         while ii < len(polygons):
                             if len(polygons[ii]) > self.max_points:
-                                pts0 = sorted(polygons[ii][:, 0])
-                                pts1 = sorted(polygons[ii][:, 1])
-                                ncuts = len(pts0) // self.max_points
-                                if pts0[-1] - pts0[0] > pts1[-1] - pts1[0]:
-                                    # Vertical cuts
-                                    cuts = [
-                                        pts0[int(i * len(pts0) / (ncuts + 1.0) + 0.5)]
-                                        for i in range(1, ncuts + 1)
-                                    ]
-                                    chopped = clipper._chop(
-                                        polygons[ii], cuts, 0, 1 / self.precision
-                                    )
-                                else:
-                                    # Horizontal cuts
-                                    cuts = [
-                                        pts1[int(i * len(pts1) / (ncuts + 1.0) + 0.5)]
-                                        for i in range(1, ncuts + 1)
-                                    ]
-                                    chopped = clipper._chop(
-                                        polygons[ii], cuts, 1, 1 / self.precision
-                                    )
+                                chopped = _fracture_once(
+                                    polygons[ii], self.max_points, self.precision
+                                )
+                                if chopped is None:
+                                    ii += 1
+                                    continue
                                 polygons.pop(ii)
                                 polygons.extend(
                                     numpy.array(x)
@@ -877,27 +861,12 @@ class FlexPath(object):
                         ii = 0
                         while ii < len(polygons):
                             if len(polygons[ii]) > self.max_points:
-                                pts0 = sorted(polygons[ii][:, 0])
-                                pts1 = sorted(polygons[ii][:, 1])
-                                ncuts = len(pts0) // self.max_points
-                                if pts0[-1] - pts0[0] > pts1[-1] - pts1[0]:
-                                    # Vertical cuts
-                                    cuts = [
-                                        pts0[int(i * len(pts0) / (ncuts + 1.0) + 0.5)]
-                                        for i in range(1, ncuts + 1)
-                                    ]
-                                    chopped = clipper._chop(
-                                        polygons[ii], cuts, 0, 1 / self.precision
-                                    )
-                                else:
-                                    # Horizontal cuts
-                                    cuts = [
-                                        pts1[int(i * len(pts1) / (ncuts + 1.0) + 0.5)]
-                                        for i in range(1, ncuts + 1)
-                                    ]
-                                    chopped = clipper._chop(
-                                        polygons[ii], cuts, 1, 1 / self.precision
-                                    )
+                                chopped = _fracture_once(
+                                    polygons[ii], self.max_points, self.precision
+                                )
+                                if chopped is None:
+                                    ii += 1
+                                    continue
                                 polygons.pop(ii)
                                 polygons.extend(
                                     numpy.array(x)
@@ -2127,27 +2096,12 @@ class RobustPath(object):
                     ii = 0
                     while ii < len(polygons):
                         if len(polygons[ii]) > self.max_points:
-                            pts0 = sorted(polygons[ii][:, 0])
-                            pts1 = sorted(polygons[ii][:, 1])
-                            ncuts = len(pts0) // self.max_points
-                            if pts0[-1] - pts0[0] > pts1[-1] - pts1[0]:
-                                # Vertical cuts
-                                cuts = [
-                                    pts0[int(i * len(pts0) / (ncuts + 1.0) + 0.5)]
-                                    for i in range(1, ncuts + 1)
-                                ]
-                                chopped = clipper._chop(
-                                    polygons[ii], cuts, 0, 1 / self.precision
-                                )
-                            else:
-                                # Horizontal cuts
-                                cuts = [
-                                    pts1[int(i * len(pts1) / (ncuts + 1.0) + 0.5)]
-                                    for i in range(1, ncuts + 1)
-                                ]
-                                chopped = clipper._chop(
-                                    polygons[ii], cuts, 1, 1 / self.precision
-                                )
+                            chopped = _fracture_once(
+                                polygons[ii], self.max_points, self.precision
+                            )
+                            if chopped is None:
+                                ii += 1
+                                continue
                             polygons.pop(ii)
                             polygons.extend(
                                 numpy.array(x)
diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index ab37ab3..d4d3026 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -45,6 +45,51 @@ _halfpi = 0.5 * numpy.pi
 _mpone = numpy.array((-1.0, 1.0))
 
 
+def _fracture_once(points, max_points, precision):
+    """
+    Chop a polygon with too many points along its longest dimension.
+
+    Parameters
+    ----------
+    points : numpy.array
+        Vertices of the polygon.
+    max_points : integer
+        Maximal number of points desired in each resulting polygon.
+    precision : float
+        Desired precision for rounding vertice coordinates.
+
+    Returns
+    -------
+    out : tuple or None
+        Resulting polygons for each slice, or None if the polygon is too
+        small to be chopped with the desired precision.
+    """
+    scaling = 1 / precision
+
+    def on_grid(x):
+        return int(scaling * x + (0.5 if x >= 0 else -0.5))
+
+    ncuts = len(points) // max_points
+    pts = [sorted(points[:, 0]), sorted(points[:, 1])]
+    axis = 0 if pts[0][-1] - pts[0][0] > pts[1][-1] - pts[1][0] else 1
+    for ax in (axis, 1 - axis):
+        cuts = [
+            pts[ax][int(i * len(pts[ax]) / (ncuts + 1.0) + 0.5)]
+            for i in range(1, ncuts + 1)
+        ]
+        # A cut that rounds to one of the extremes does not divide the polygon.
+        low, high = on_grid(pts[ax][0]), on_grid(pts[ax][-1])
+        if not any(low < on_grid(x) < high for x in cuts):
+            cuts = [x for x in pts[ax] if low < on_grid(x) < high]
+            if len(cuts) > 0:
+                cuts = [cuts[len(cuts) // 2]]
+            elif high - low > 1:
+                cuts = [((low + high) // 2) * precision]
+        if len(cuts) > 0:
+            return clipper._chop(points, cuts, ax, scaling)
+    return None
+
+
 class PolygonSet(object):
     """
     Set of polygonal objects.
@@ -346,27 +391,10 @@ class PolygonSet(object):
             ii = 0
             while ii < len(self.polygons):
                 if len(self.polygons[ii]) > max_points:
-                    pts0 = sorted(self.polygons[ii][:, 0])
-                    pts1 = sorted(self.polygons[ii][:, 1])
-                    ncuts = len(pts0) // max_points
-                    if pts0[-1] - pts0[0] > pts1[-1] - pts1[0]:
-                        # Vertical cuts
-                        cuts = [
-                            pts0[int(i * len(pts0) / (ncuts + 1.0) + 0.5)]
-                            for i in range(1, ncuts + 1)
-                        ]
-                        chopped = clipper._chop(
-                            self.polygons[ii], cuts, 0, 1 / precision
-                        )
-                    else:
-                        # Horizontal cuts
-                        cuts = [
-                            pts1[int(i * len(pts1) / (ncuts + 1.0) + 0.5)]
-                            for i in range(1, ncuts + 1)
-                        ]
-                        chopped = clipper._chop(
-                            self.polygons[ii], cuts, 1, 1 / precision
-                        )
+                    chopped = _fracture_once(self.polygons[ii], max_points, precision)
+                    if chopped is None:
+                        ii += 1
+                        continue
                     self.polygons.pop(ii)
                     layer = self.layers.pop(ii)
                     datatype = self.datatypes.pop(ii)
-- 
2.43.0


From d51e87f0eba098d66de431668a69dcefa61d6c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:14 +0000
Subject: [PATCH 02/67] fix: FlexPath inside a list is not accepted as
 geometric operand

---
 gdspy/operation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/operation.py b/gdspy/operation.py
index ff5d351..f8f38f2 100644
--- a/gdspy/operation.py
+++ b/gdspy/operation.py
@@ -72,7 +72,7 @@ def _gather_polys(args):
             polys.extend(p.polygons)
         elif (
             isinstance(p, RobustPath)
-            or isinstance(args, FlexPath)
+            or isinstance(p, FlexPath)
             or isinstance(p, CellReference)
             or isinstance(p, CellArray)
         ):
-- 
2.43.0


From bebf5cda3a229c9064424350732ff175423648c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:46 +0000
Subject: [PATCH 03/67] fix: boolean with an empty second operand

---
 gdspy/operation.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/gdspy/operation.py b/gdspy/operation.py
index f8f38f2..65f00d0 100644
--- a/gdspy/operation.py
+++ b/gdspy/operation.py
@@ -250,12 +250,6 @@ def boolean(
     """
     poly1 = _gather_polys(operand1)
     poly2 = _gather_polys(operand2)
-    if len(poly2) == 0:
-        if operation in ["not", "xor"]:
-            if len(poly1) == 0:
-                return None
-            return PolygonSet(poly1, layer, datatype).fracture(max_points, precision)
-        poly2.append(poly1.pop())
     result = clipper.clip(poly1, poly2, operation, 1 / precision)
     if len(result) == 0:
         return None
-- 
2.43.0


From bd14678062569c300c166569bbbcff0b5df1612d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:36 +0000
Subject: [PATCH 04/67] fix: hole that touches its contour is linked to an
 arbitrary point

---
 gdspy/clipper.cpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/gdspy/clipper.cpp b/gdspy/clipper.cpp
index f5a599e..e3ffa51 100644
--- a/gdspy/clipper.cpp
+++ b/gdspy/clipper.cpp
@@ -4773,24 +4773,33 @@ void link_holes(PolyNode *node, Paths &out)
     Path::iterator pprev = --result.end();
     Path::iterator pnext = result.begin();
     cInt xnew = 0;
+    // Find the edge closest to p on its left.  Because the hole can touch the
+    // contour, edges that only reach the height of p at one of their vertices
+    // and horizontal edges also count, and rounding can place an edge slightly
+    // to the right of p: those are used if there is no other.
     for (; pnext != result.end(); pprev = pnext++)
     {
-      if ((pnext->Y <= p->Y && p->Y < pprev->Y) || (pprev->Y < p->Y && p->Y <= pnext->Y))
+      if ((pnext->Y <= p->Y && p->Y <= pprev->Y) || (pprev->Y <= p->Y && p->Y <= pnext->Y))
       {
-        cInt x = pnext->X + ((pprev->X - pnext->X) * (p->Y - pnext->Y)) / (pprev->Y - pnext->Y);
-        if ((x > xnew || p1 == result.end()) && x <= p->X)
+        cInt x;
+        if (pnext->Y == pprev->Y)
+          x = std::max(std::min(pprev->X, pnext->X), std::min(p->X, std::max(pprev->X, pnext->X)));
+        else
+          x = pnext->X + (cInt)((double)(pprev->X - pnext->X) * (p->Y - pnext->Y) / (pprev->Y - pnext->Y));
+        if (p1 == result.end() || (x <= p->X ? (xnew > p->X || x > xnew) : x < xnew))
         {
           xnew = x;
           p1 = pnext;
-        } else if ((pnext->Y == p->Y && pprev->Y == p->Y) && ((pnext->X <= p->X && p->X <= pprev->X) || (pprev->X <= p->X && p->X <= pnext->X))) {
-          xnew = p->X;
-          p1 = pnext;
-          break;
         }
       }
     }
 
     IntPoint pnew(xnew, p->Y);
+    if (p1 == result.end())
+    {
+      p1 = result.begin();
+      pnew = *p1;
+    }
     if (pnew.X != p1->X || pnew.Y != p1->Y) result.insert(p1, pnew);
     result.insert(p1, h->begin(), p+1);
     result.insert(p1, p, h->end());
-- 
2.43.0


From 441896841fc378b203b01598ca6ed56a726b8c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:48 +0000
Subject: [PATCH 05/67] fix: polygon orientation overflows for large
 coordinates

---
 gdspy/clipper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gdspy/clipper.cpp b/gdspy/clipper.cpp
index e3ffa51..e1c0471 100644
--- a/gdspy/clipper.cpp
+++ b/gdspy/clipper.cpp
@@ -4643,7 +4643,7 @@ short parse_polygon(PyObject *py_polygon, Path &path, double scaling, bool check
   /* Parse a complete polygon */
   PyObject *py_point, *py_coord;
   long num_points = PySequence_Length(py_polygon);
-  cInt orientation = 0;
+  double orientation = 0;  // products of coordinates do not fit in cInt
 
   if (!PySequence_Check(py_polygon))
   {
@@ -4684,7 +4684,7 @@ short parse_polygon(PyObject *py_polygon, Path &path, double scaling, bool check
     std::cout << path[j].X << "," << path[j].Y << std::endl;
 #endif //DEBUG
     if (check_orientation == true && j > 1)
-      orientation += (path[0].X - path[j].X) * (path[j-1].Y - path[0].Y) - (path[0].Y - path[j].Y) * (path[j-1].X - path[0].X);
+      orientation += (double)(path[0].X - path[j].X) * (path[j-1].Y - path[0].Y) - (double)(path[0].Y - path[j].Y) * (path[j-1].X - path[0].X);
   }
   if (check_orientation == true && orientation < 0)
   {
-- 
2.43.0


From b72a7fcb981e29b3c4e369fd3b9ab59bb4c87622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:07 +0000
Subject: [PATCH 06/67] fix: holes assigned to the wrong contour in boolean
 results

---
 gdspy/clipper.cpp | 88 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 65 insertions(+), 23 deletions(-)

diff --git a/gdspy/clipper.cpp b/gdspy/clipper.cpp
index e1c0471..b0c7326 100644
--- a/gdspy/clipper.cpp
+++ b/gdspy/clipper.cpp
@@ -4744,17 +4744,64 @@ bool path_compare(Path &p1, Path &p2)
 
 //------------------------------------------------------------------------------
 
-void link_holes(PolyNode *node, Paths &out)
+// Difference between the number of vertices of hole in and out of outer
+long hole_vote(Path &hole, Path &outer)
+{
+  long vote = 0;
+  for (Path::iterator p = hole.begin(); p != hole.end(); ++p)
+  {
+    int position = PointInPolygon(*p, outer);
+    if (position > 0) ++vote;
+    else if (position == 0) --vote;
+  }
+  return vote;
+}
+
+//------------------------------------------------------------------------------
+
+// Clipper can assign holes that touch their contours to the wrong one.  This
+// function moves them to the smallest contour that encloses them.
+void fix_hole_owners(PolyNodes &outers, std::vector<PolyNodes> &holes)
+{
+  std::vector<PolyNodes> fixed(outers.size());
+  for (PolyNodes::size_type i = 0; i < outers.size(); ++i)
+  {
+    for (PolyNodes::iterator child = holes[i].begin(); child != holes[i].end(); ++child)
+    {
+      Path &hole = (*child)->Contour;
+      PolyNodes::size_type owner = i;
+      long vote = hole_vote(hole, outers[i]->Contour);
+      if (vote <= 0)
+      {
+        for (PolyNodes::size_type j = 0; j < outers.size(); ++j)
+        {
+          long other = j == i ? vote : hole_vote(hole, outers[j]->Contour);
+          if (other > vote || (other == vote && other > 0 && std::fabs(Area(outers[j]->Contour)) < std::fabs(Area(outers[owner]->Contour))))
+          {
+            vote = other;
+            owner = j;
+          }
+        }
+      }
+      fixed[owner].push_back(*child);
+    }
+  }
+  holes.swap(fixed);
+}
+
+//------------------------------------------------------------------------------
+
+void link_holes(PolyNode *node, PolyNodes &children, Paths &out)
 {
   Path result = node->Contour;
-  Paths holes(node->ChildCount());
+  Paths holes(children.size());
   Paths unsorted(0);
 
-  unsorted.reserve(node->ChildCount());
+  unsorted.reserve(children.size());
 
   int size = result.size();
 
-  for (PolyNodes::iterator child = node->Childs.begin(); child != node->Childs.end(); ++child)
+  for (PolyNodes::iterator child = children.begin(); child != children.end(); ++child)
   {
     size += (*child)->Contour.size() + 3;
     unsorted.push_back((*child)->Contour);
@@ -4813,32 +4860,27 @@ void link_holes(PolyNode *node, Paths &out)
 
 void tree2paths(PolyTree &tree, Paths &out)
 {
-  PolyNode *node = tree.GetFirst();
-  // Rough estimate for the number of polygons
-  out.reserve(tree.ChildCount());
+  PolyNodes outers;
+  std::vector<PolyNodes> holes;
 #ifdef DEBUG
         std::cout << std::endl << "Output tree" << std::endl;
 #endif //DEBUG
-  while (node)
+  for (PolyNode *node = tree.GetFirst(); node; node = node->GetNext())
   {
     if (!node->IsHole())
     {
-      if (node->ChildCount() > 0)
-      {
-#ifdef DEBUG
-        std::cout << "Hole" << std::endl;
-#endif //DEBUG
-        link_holes(node, out);
-      }
-      else
-      {
-#ifdef DEBUG
-        std::cout << "Polygon" << std::endl;
-#endif //DEBUG
-        out.push_back(node->Contour);
-      }
+      outers.push_back(node);
+      holes.push_back(node->Childs);
     }
-    node = node->GetNext();
+  }
+  fix_hole_owners(outers, holes);
+  out.reserve(outers.size());
+  for (PolyNodes::size_type i = 0; i < outers.size(); ++i)
+  {
+    if (holes[i].size() > 0)
+      link_holes(outers[i], holes[i], out);
+    else
+      out.push_back(outers[i]->Contour);
   }
 }
 
-- 
2.43.0


From 2d309487f446f7912c4942951f77202c095a1340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:14 +0000
Subject: [PATCH 07/67] fix: points of a native RobustPath are truncated
 instead of rounded to the grid

---
 gdspy/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 15ae9a2..5c19ba0 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -2273,7 +2273,7 @@ class RobustPath(object):
                         points.append(px)
                     start = 0
             points.extend(self.paths[ii][-1].points(start, 1, 0))
-            points = (numpy.array(points) * multiplier).astype(">i4")
+            points = numpy.round(numpy.array(points) * multiplier).astype(">i4")
             if points.shape[0] > 8191:
                 warnings.warn(
                     "[GDSPY] Paths with more than 8191 are not supported "
-- 
2.43.0


From 82951852bd806c3e4339491e741a47950a233c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:33 +0000
Subject: [PATCH 08/67] fix: arcs with radius below half of the tolerance raise
 an error

---
 gdspy/curve.py   |  3 ++-
 gdspy/path.py    | 20 ++++++++++----------
 gdspy/polygon.py | 12 ++++++++++--
 3 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/gdspy/curve.py b/gdspy/curve.py
index 4559be9..18bb872 100644
--- a/gdspy/curve.py
+++ b/gdspy/curve.py
@@ -33,6 +33,7 @@ else:
 
 import numpy
 from gdspy.path import _func_bezier, _hobby
+from gdspy.polygon import _arc_step
 
 
 class Curve(object):
@@ -275,7 +276,7 @@ class Curve(object):
         number_of_points = max(
             3,
             1
-            + int(0.5 * full_angle / numpy.arccos(1 - self.tol ** 0.5 / radius) + 0.5),
+            + int(0.5 * full_angle / _arc_step(self.tol ** 0.5, radius) + 0.5),
         )
         angles = numpy.linspace(
             initial_angle - rotation, final_angle - rotation, number_of_points
diff --git a/gdspy/path.py b/gdspy/path.py
index 5c19ba0..454669b 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -38,7 +38,7 @@ import itertools
 import struct
 
 from gdspy.hobby import _hobby
-from gdspy.polygon import PolygonSet, _fracture_once
+from gdspy.polygon import PolygonSet, _fracture_once, _arc_step
 
 _halfpi = 0.5 * numpy.pi
 _angle_dict = {"l": _halfpi, "r": -_halfpi, "ll": numpy.pi, "rr": -numpy.pi}
@@ -484,7 +484,7 @@ class FlexPath(object):
                                 5,
                                 1
                                 + int(
-                                    _halfpi / numpy.arccos(1 - self.tolerance / r) + 0.5
+                                    _halfpi / _arc_step(self.tolerance, r) + 0.5
                                 ),
                             )
                             ang = numpy.linspace(_halfpi, -_halfpi, np) + numpy.arctan2(
@@ -499,7 +499,7 @@ class FlexPath(object):
                                 5,
                                 1
                                 + int(
-                                    _halfpi / numpy.arccos(1 - self.tolerance / r) + 0.5
+                                    _halfpi / _arc_step(self.tolerance, r) + 0.5
                                 ),
                             )
                             ang = numpy.linspace(_halfpi, -_halfpi, np) + numpy.arctan2(
@@ -688,7 +688,7 @@ class FlexPath(object):
                                         2,
                                         1
                                         + int(
-                                            da / numpy.arccos(1 - self.tolerance / r)
+                                            da / _arc_step(self.tolerance, r)
                                             + 0.5
                                         ),
                                     )
@@ -745,7 +745,7 @@ class FlexPath(object):
                                         + int(
                                             0.5
                                             * abs(a1 - a0)
-                                            / numpy.arccos(1 - self.tolerance / half_w)
+                                            / _arc_step(self.tolerance, half_w)
                                             + 0.5
                                         ),
                                     )
@@ -828,7 +828,7 @@ class FlexPath(object):
                                     5,
                                     1
                                     + int(
-                                        _halfpi / numpy.arccos(1 - self.tolerance / r)
+                                        _halfpi / _arc_step(self.tolerance, r)
                                         + 0.5
                                     ),
                                 )
@@ -1037,8 +1037,8 @@ class FlexPath(object):
                             1
                             + int(
                                 da
-                                / numpy.arccos(
-                                    1 - self.tolerance / (r + 0.5 * self.widths[0, ii])
+                                / _arc_step(
+                                    self.tolerance, r + 0.5 * self.widths[0, ii]
                                 )
                                 + 0.5
                             ),
@@ -1379,7 +1379,7 @@ class FlexPath(object):
             + int(
                 0.5
                 * abs(final_angle - initial_angle)
-                / numpy.arccos(1 - self.tolerance / rmax)
+                / _arc_step(self.tolerance, rmax)
                 + 0.5
             ),
         )
@@ -1995,7 +1995,7 @@ class RobustPath(object):
                                     5,
                                     1
                                     + int(
-                                        _halfpi / numpy.arccos(1 - self.tolerance / r)
+                                        _halfpi / _arc_step(self.tolerance, r)
                                         + 0.5
                                     ),
                                 )
diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index d4d3026..bffa80d 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -45,6 +45,14 @@ _halfpi = 0.5 * numpy.pi
 _mpone = numpy.array((-1.0, 1.0))
 
 
+def _arc_step(tolerance, radius):
+    # Half of the angle of the largest chord within tolerance of an arc.  No
+    # chord is farther than the tolerance if the radius is small enough.
+    if 2 * abs(radius) <= tolerance:
+        return numpy.pi
+    return numpy.arccos(1 - tolerance / abs(radius))
+
+
 def _fracture_once(points, max_points, precision):
     """
     Chop a polygon with too many points along its longest dimension.
@@ -794,7 +802,7 @@ class Round(PolygonSet):
             )
             number_of_points = max(
                 3,
-                1 + int(0.5 * full_angle / numpy.arccos(1 - tolerance / radius) + 0.5),
+                1 + int(0.5 * full_angle / _arc_step(tolerance, radius) + 0.5),
             )
             if inner_radius > 0:
                 number_of_points *= 2
@@ -1459,7 +1467,7 @@ class Path(PolygonSet):
                 * int(
                     0.5
                     * abs(final_angle - initial_angle)
-                    / numpy.arccos(1 - tolerance / r)
+                    / _arc_step(tolerance, r)
                     + 0.5
                 ),
             )
-- 
2.43.0


From 3a9e1a762f178bee8bf66bb68b3d208ff5add440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:58 +0000
Subject: [PATCH 09/67] fix: empty strings in GDSII files are read as None

---
 gdspy/gdsiiformat.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gdspy/gdsiiformat.py b/gdspy/gdsiiformat.py
index 3747391..30434ee 100644
--- a/gdspy/gdsiiformat.py
+++ b/gdspy/gdsiiformat.py
@@ -98,6 +98,8 @@ def _record_reader(stream):
                         data = data.decode("ascii")
                 elif data[-1] == "\0":
                     data = data[:-1]
+        elif data_type == 0x06:
+            data = ""
         yield [rec_type, data]
 
 
-- 
2.43.0


From f7ee63d609702f235cacd3f68261498a48fd9b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:02 +0000
Subject: [PATCH 10/67] fix: numbers just below a power of 16 are encoded
 without normalisation

---
 gdspy/gdsiiformat.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/gdspy/gdsiiformat.py b/gdspy/gdsiiformat.py
index 30434ee..192780a 100644
--- a/gdspy/gdsiiformat.py
+++ b/gdspy/gdsiiformat.py
@@ -147,11 +147,9 @@ def _eight_byte_real(value):
         value = -value
     else:
         byte1 = 0x00
-    fexp = numpy.log2(value) / 4
-    exponent = int(numpy.ceil(fexp))
-    if fexp == exponent:
-        exponent += 1
-    mantissa = int(value * 16.0 ** (14 - exponent))
+    frac, exp2 = numpy.frexp(value)
+    exponent = int(exp2) // 4 + (1 if exp2 % 4 else 0)
+    mantissa = int(numpy.ldexp(frac, 56 + int(exp2) - 4 * exponent))
     byte1 += exponent + 64
     byte2 = mantissa // 281474976710656
     short3 = (mantissa % 281474976710656) // 4294967296
-- 
2.43.0


From 2bf8efea6d59fc817f8dbbf7d742f3cb4bd56e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:43 +0000
Subject: [PATCH 11/67] fix: paths without WIDTH record cannot be read

---
 gdspy/library.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gdspy/library.py b/gdspy/library.py
index ad0b83a..373b0ae 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -2743,6 +2743,7 @@ class GdsLibrary(object):
             kwargs["ends"] = (kwargs.pop("bgnextn", 0), kwargs.pop("endextn", 0))
         kwargs["points"] = xy.reshape((xy.size // 2, 2))
         kwargs["gdsii_path"] = True
+        kwargs.setdefault("width", 0)
         return FlexPath(**kwargs)
 
     def _create_label(self, xy, width=None, width_transform=None, ends=None, **kwargs):
-- 
2.43.0


From 2349230523bf8bd53583f3f2c119b05832298c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:43 +0000
Subject: [PATCH 12/67] fix: properties of skipped elements are given to the
 next element

---
 gdspy/library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 373b0ae..be1e2cf 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -2604,10 +2604,10 @@ class GdsLibrary(object):
                     el = create_element(**kwargs)
                     if len(properties) > 0:
                         el.properties = properties
-                        properties = {}
                     cell.add(el)
                     create_element = None
                 kwargs = {}
+                properties = {}
             # BOUNDARY
             elif record[0] == 0x08:
                 create_element = self._create_polygon
-- 
2.43.0


From 8a9ae85535f1dd1a3995dccaa1513a455bad9aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:43 +0000
Subject: [PATCH 13/67] fix: missing extensions in GDSII paths of type 4 are
 read as half of the width

---
 gdspy/library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index be1e2cf..950a2da 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -2276,7 +2276,7 @@ class GdsLibrary(object):
     _import_anchors = [
         "nw", "n", "ne", "o", "w", "o", "e", "o", "sw", "s", "se", "o", "o", "o", "o", "o"
     ]
-    _pathtype_dict = {0: "flush", 1: "round", 2: "extended"}
+    _pathtype_dict = {0: "flush", 1: "round", 2: "extended", 4: (0, 0)}
 
     __slots__ = "name", "cells", "unit", "precision", "_references"
 
-- 
2.43.0


From 02bf074c17656f762d153cb8e0b2bda76b5a8ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:44 +0000
Subject: [PATCH 14/67] fix: anchor of texts without PRESENTATION record

---
 gdspy/library.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gdspy/library.py b/gdspy/library.py
index 950a2da..0c00acb 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -2748,6 +2748,7 @@ class GdsLibrary(object):
 
     def _create_label(self, xy, width=None, width_transform=None, ends=None, **kwargs):
         kwargs["position"] = xy
+        kwargs.setdefault("anchor", "nw")
         return Label(**kwargs)
 
     def _create_reference(self, **kwargs):
-- 
2.43.0


From 0a48a1b8fc7a47e302ef51d6d3c2e84eea94cb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:04 +0000
Subject: [PATCH 15/67] fix: get_binary_cells fails for files padded after the
 end of the library

---
 gdspy/gdsiiformat.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gdspy/gdsiiformat.py b/gdspy/gdsiiformat.py
index 192780a..5238443 100644
--- a/gdspy/gdsiiformat.py
+++ b/gdspy/gdsiiformat.py
@@ -122,6 +122,9 @@ def _raw_record_reader(stream):
         if len(header) < 4:
             return
         size, rec_type = struct.unpack(">HH", header)
+        if size == 0:
+            # null padding after the end of the library
+            return
         rec_type = rec_type // 256
         yield (rec_type, header + stream.read(size - 4))
 
-- 
2.43.0


From 6fd55e6cfe06d8d436d64208bda21925afc30aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:04 +0000
Subject: [PATCH 16/67] fix: gdsii_hash fails if a file is padded with less
 than 4 bytes

---
 gdspy/gdsiiformat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/gdsiiformat.py b/gdspy/gdsiiformat.py
index 5238443..93593be 100644
--- a/gdspy/gdsiiformat.py
+++ b/gdspy/gdsiiformat.py
@@ -212,7 +212,7 @@ def gdsii_hash(filename, engine=None):
         data = fin.read()
     contents = []
     start = pos = 0
-    while pos < len(data):
+    while pos + 4 <= len(data):
         size, rec = struct.unpack(">HH", data[pos : pos + 4])
         if rec == 0x0502:
             start = pos + 28
-- 
2.43.0


From b9d8f9cb425a48039e35eda65edf1368f48326ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:21 +0000
Subject: [PATCH 17/67] fix: Cell.get_texttypes fails on any cell with
 references

---
 gdspy/library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 0c00acb..18f8d23 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -518,7 +518,7 @@ class Cell(object):
         """
         texttypes = set()
         for reference in self.references:
-            texttypes.update(reference.ref_cell.get_textypes())
+            texttypes.update(reference.ref_cell.get_texttypes())
         for label in self.labels:
             texttypes.add(label.texttype)
         return texttypes
-- 
2.43.0


From 8b5a3e27cc2c3f769e90801a4aa0cd279ed49615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:21 +0000
Subject: [PATCH 18/67] fix: get_layers, get_datatypes and get_texttypes fail
 on references to missing cells

---
 gdspy/library.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 18f8d23..6541a06 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -486,7 +486,8 @@ class Cell(object):
         for element in itertools.chain(self.polygons, self.paths):
             layers.update(element.layers)
         for reference in self.references:
-            layers.update(reference.ref_cell.get_layers())
+            if isinstance(reference.ref_cell, Cell):
+                layers.update(reference.ref_cell.get_layers())
         for label in self.labels:
             layers.add(label.layer)
         return layers
@@ -504,7 +505,8 @@ class Cell(object):
         for element in itertools.chain(self.polygons, self.paths):
             datatypes.update(element.datatypes)
         for reference in self.references:
-            datatypes.update(reference.ref_cell.get_datatypes())
+            if isinstance(reference.ref_cell, Cell):
+                datatypes.update(reference.ref_cell.get_datatypes())
         return datatypes
 
     def get_texttypes(self):
@@ -518,7 +520,8 @@ class Cell(object):
         """
         texttypes = set()
         for reference in self.references:
-            texttypes.update(reference.ref_cell.get_texttypes())
+            if isinstance(reference.ref_cell, Cell):
+                texttypes.update(reference.ref_cell.get_texttypes())
         for label in self.labels:
             texttypes.add(label.texttype)
         return texttypes
-- 
2.43.0


From 8a9379742ff17f811a11ae08311bb58019f25020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:21 +0000
Subject: [PATCH 19/67] fix: get_polygons by layer and datatype of a missing
 cell is a list, not a dict

---
 gdspy/library.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 6541a06..bf8b9e7 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -1366,7 +1366,7 @@ class CellReference(object):
         the result by computing their polygonal boundary.
         """
         if not isinstance(self.ref_cell, Cell):
-            return dict() if by_spec else []
+            return dict() if by_spec is True else []
         polygons = self.ref_cell.get_polygons(by_spec, depth)
         return self._transform_polygons(polygons)
 
@@ -1976,7 +1976,7 @@ class CellArray(object):
         the result by computing their polygonal boundary.
         """
         if not isinstance(self.ref_cell, Cell):
-            return dict() if by_spec else []
+            return dict() if by_spec is True else []
         cell_polygons = self.ref_cell.get_polygons(by_spec, depth)
         return self._transform_polygons(cell_polygons)
 
-- 
2.43.0


From 9fc26bf904f9e08cb0c49044b20ebd04d49a508c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:30 +0000
Subject: [PATCH 20/67] fix: flatten sets the texttype of labels by
 single_texttype alone

---
 gdspy/library.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index bf8b9e7..bc76d1a 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -824,14 +824,10 @@ class Cell(object):
             This cell.
         """
         self.labels = self.get_labels()
-        if single_layer is not None and single_datatype is not None:
-            for lbl in self.labels:
-                lbl.layer = single_layer
-                lbl.texttype = single_texttype
-        elif single_layer is not None:
+        if single_layer is not None:
             for lbl in self.labels:
                 lbl.layer = single_layer
-        elif single_datatype is not None:
+        if single_texttype is not None:
             for lbl in self.labels:
                 lbl.texttype = single_texttype
         self.polygons = self.get_polygonsets()
-- 
2.43.0


From d6150f608deb72226f60fb0e124645a2875409c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:20 +0000
Subject: [PATCH 21/67] fix: RobustPath in a magnified CellArray gets its array
 step magnified

---
 gdspy/path.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 454669b..ab8de8f 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -2477,6 +2477,14 @@ class RobustPath(object):
         False, the widths are not scaled.
         """
         self._polygon_dict = None
+        if scale is not None:
+            self.x = self.x * scale
+            if self.width_transform or not self.gdsii_path:
+                self.widths = [wid * scale for wid in self.widths]
+            self.offsets = [off * scale for off in self.offsets]
+            for path in self.paths:
+                for sub in path:
+                    sub.scale(scale)
         if array_trans is not None:
             self.x = self.x + array_trans
             for path in self.paths:
@@ -2489,14 +2497,6 @@ class RobustPath(object):
             for path in self.paths:
                 for sub in path:
                     sub.scale(1, -1)
-        if scale is not None:
-            self.x = self.x * scale
-            if self.width_transform or not self.gdsii_path:
-                self.widths = [wid * scale for wid in self.widths]
-            self.offsets = [off * scale for off in self.offsets]
-            for path in self.paths:
-                for sub in path:
-                    sub.scale(scale)
         if rotation is not None:
             ca = numpy.cos(rotation)
             sa = numpy.sin(rotation) * _mpone
-- 
2.43.0


From 87921cbfa1ace1c411d0240e66d779936898cfba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:37 +0000
Subject: [PATCH 22/67] fix: reflected RobustPath has negative widths (in saved
 paths and in later sections)

---
 gdspy/path.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index ab8de8f..4e8d2a7 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -105,6 +105,11 @@ class _SubPath(object):
         return "SubPath ({} - {})".format(self(0, 1e-6, 0), self(1, 1e-6, 0))
 
     def __call__(self, u, arm, transform=True):
+        cx = self.transform[0]
+        cy = self.transform[1]
+        if transform and cx[0] * cy[1] - cx[1] * cy[0] < 0:
+            # Reflection swaps the sides of the path
+            arm = -arm
         v = self.dx(u, self.h)[::-1] * _pmone
         v /= (v[0] ** 2 + v[1] ** 2) ** 0.5
         x = self.x(u) + self.off(u) * v
@@ -124,8 +129,6 @@ class _SubPath(object):
             else:
                 x += 0.5 * self.wid(u) * w
         if transform:
-            cx = self.transform[0]
-            cy = self.transform[1]
             return numpy.array(
                 (
                     cx[0] * x[0] + cx[1] * x[1] + cx[2],
@@ -2492,7 +2495,6 @@ class RobustPath(object):
                     sub.translate(array_trans)
         if x_reflection:
             self.x = numpy.array((self.x[0], -self.x[1]))
-            self.widths = [wid * -1 for wid in self.widths]
             self.offsets = [off * -1 for off in self.offsets]
             for path in self.paths:
                 for sub in path:
-- 
2.43.0


From cc16ef7e1930535f368616d6050124450bce4e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:59 +0000
Subject: [PATCH 23/67] fix: end extensions and bend radii of scaled flexible
 paths

---
 gdspy/path.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 4e8d2a7..4d9719e 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -1216,11 +1216,17 @@ class FlexPath(object):
         if self.width_transform or not self.gdsii_path:
             self.widths = self.widths * scale
         self.offsets = self.offsets * scale
+        self._scale_styles(scale)
+        return self
+
+    def _scale_styles(self, scale):
         for i, end in enumerate(self.ends):
             # CustomPlus created by bgnextn and endextn
             if isinstance(end, tuple):
                 self.ends[i] = tuple([e * scale for e in end])
-        return self
+        for i, radius in enumerate(self.bend_radius):
+            if radius is not None:
+                self.bend_radius[i] = radius * scale
 
     def transform(self, translation, rotation, scale, x_reflection, array_trans=None):
         """
@@ -1268,6 +1274,7 @@ class FlexPath(object):
             if self.width_transform or not self.gdsii_path:
                 self.widths = self.widths * scale
             self.offsets = self.offsets * scale
+            self._scale_styles(scale)
         if x_reflection:
             cos[1] = -cos[1]
             sin[0] = -sin[0]
-- 
2.43.0


From 49dcc1e9857118d0bd5c5ddcec64ad09479bfafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:59 +0000
Subject: [PATCH 24/67] fix: end extensions of scaled robust paths

---
 gdspy/path.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 4d9719e..b292eaf 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -2449,15 +2449,21 @@ class RobustPath(object):
         self._polygon_dict = None
         c0 = numpy.array(center) * (1 - scale)
         self.x = self.x * scale + c0
-        if self.width_transform or not self.gdsii_path:
-            self.widths = [wid * scale for wid in self.widths]
-        self.offsets = [off * scale for off in self.offsets]
+        self._scale_styles(scale)
         for path in self.paths:
             for sub in path:
                 sub.scale(scale)
                 sub.translate(c0)
         return self
 
+    def _scale_styles(self, scale):
+        if self.width_transform or not self.gdsii_path:
+            self.widths = [wid * scale for wid in self.widths]
+        self.offsets = [off * scale for off in self.offsets]
+        for i, end in enumerate(self.ends):
+            if isinstance(end, tuple):
+                self.ends[i] = tuple([e * scale for e in end])
+
     def transform(self, translation, rotation, scale, x_reflection, array_trans=None):
         """
         Apply a transform to this path.
@@ -2489,9 +2495,7 @@ class RobustPath(object):
         self._polygon_dict = None
         if scale is not None:
             self.x = self.x * scale
-            if self.width_transform or not self.gdsii_path:
-                self.widths = [wid * scale for wid in self.widths]
-            self.offsets = [off * scale for off in self.offsets]
+            self._scale_styles(scale)
             for path in self.paths:
                 for sub in path:
                     sub.scale(scale)
-- 
2.43.0


From ba660ab60bac55a3adf7db4775b483b12e1fd235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:20 +0000
Subject: [PATCH 25/67] fix: scaling a RobustPath with width_transform=False
 scales the width of its sections

---
 gdspy/path.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/gdspy/path.py b/gdspy/path.py
index b292eaf..f561bbd 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -64,6 +64,10 @@ def _func_offset(f, a):
     return lambda u: f(u) + a
 
 
+def _func_scale(f, a):
+    return lambda u: f(u) * a
+
+
 def _func_bezier(ctrl, nargs=1):
     if nargs == 1:
 
@@ -2459,6 +2463,11 @@ class RobustPath(object):
     def _scale_styles(self, scale):
         if self.width_transform or not self.gdsii_path:
             self.widths = [wid * scale for wid in self.widths]
+        else:
+            # Keep the widths of the sections, despite their scaling
+            for path in self.paths:
+                for sub in path:
+                    sub.wid = _func_scale(sub.wid, 1.0 / scale)
         self.offsets = [off * scale for off in self.offsets]
         for i, end in enumerate(self.ends):
             if isinstance(end, tuple):
-- 
2.43.0


From ac6f8e86f25113ae97c21ccad9131ad1f876dee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:27 +0000
Subject: [PATCH 26/67] fix: direction of RobustPath.turn after transformations
 and near 180 degrees

---
 gdspy/path.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index f561bbd..50de278 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -2716,11 +2716,12 @@ class RobustPath(object):
                 "empty RobustPath."
             )
         angle = _angle_dict.get(angle, angle)
-        initial_angle = 0
+        directions = []
         for p in self.paths:
-            v = p[i].grad(1, 0, False)
-            initial_angle += numpy.arctan2(v[1], v[0])
-        initial_angle = initial_angle / len(self.paths) + (
+            v = p[i].grad(1, 0)
+            directions.append(numpy.arctan2(v[1], v[0]))
+        # Avoid the discontinuity at 180 degrees when averaging
+        initial_angle = numpy.mean(numpy.unwrap(directions)) + (
             _halfpi if angle < 0 else -_halfpi
         )
         self.arc(radius, initial_angle, initial_angle + angle, width, offset)
-- 
2.43.0


From b28207acb46a5bfe4319fe21efc9edc3221bcc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:34 +0000
Subject: [PATCH 27/67] fix: RobustPath changes the lists of widths and offsets
 it was created with

---
 gdspy/path.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 50de278..aa9f960 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -1807,9 +1807,9 @@ class RobustPath(object):
         self._polygon_dict = None
         if isinstance(width, list):
             self.n = len(width)
-            self.widths = width
+            self.widths = list(width)
             if isinstance(offset, list):
-                self.offsets = offset
+                self.offsets = list(offset)
             else:
                 self.offsets = [
                     (i - 0.5 * (self.n - 1)) * offset for i in range(self.n)
@@ -1817,7 +1817,7 @@ class RobustPath(object):
         else:
             if isinstance(offset, list):
                 self.n = len(offset)
-                self.offsets = offset
+                self.offsets = list(offset)
             else:
                 self.n = 1
                 self.offsets = [offset]
-- 
2.43.0


From 6b65a177626997c16a03ddfb6624e2e891b9ddbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:41 +0000
Subject: [PATCH 28/67] fix: FlexPath created from a single point has widths
 for two points

---
 gdspy/path.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index aa9f960..4e78dcd 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -336,8 +336,8 @@ class FlexPath(object):
         self.points = numpy.array(points)
         if self.points.shape == (2,):
             self.points.resize((1, 2))
-        self.widths = numpy.tile(self.widths, (len(points), 1))
-        self.offsets = numpy.tile(self.offsets, (len(points), 1))
+        self.widths = numpy.tile(self.widths, (len(self.points), 1))
+        self.offsets = numpy.tile(self.offsets, (len(self.points), 1))
         if isinstance(ends, list):
             self.ends = [ends[i % len(ends)] for i in range(self.n)]
         else:
-- 
2.43.0


From b686f94bb4104d949fd0b7db9da8a9b533ecf3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:07 +0000
Subject: [PATCH 29/67] fix: paths without segments break area, get_polygons,
 get_bounding_box and output

---
 gdspy/library.py |  2 +-
 gdspy/path.py    | 21 ++++++++++++++++-----
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index bc76d1a..b5b69e2 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -569,7 +569,7 @@ class Cell(object):
             for polygon in self.polygons:
                 all_polygons.extend(polygon.polygons)
             for path in self.paths:
-                all_polygons.extend(path.to_polygonset().polygons)
+                all_polygons.extend(path.get_polygons())
             for reference in self.references:
                 reference_bb = reference.get_bounding_box()
                 if reference_bb is not None:
diff --git a/gdspy/path.py b/gdspy/path.py
index 4e78dcd..3301741 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -410,13 +410,14 @@ class FlexPath(object):
             polygon, or dictionary with the list of polygons (if
             `by_spec` is True).
         """
+        if (self.points == self.points[:1]).all():
+            # No segments
+            return {} if by_spec else []
         if self._polygon_dict is None:
             self._polygon_dict = {}
             if self.points.shape[0] == 2:
                 # Common case: single path with 2 points
                 un = self.points[1] - self.points[0]
-                if un[0] == 0 and un[1] == 0:
-                    return {} if by_spec else []
                 un = un[::-1] * _mpone / (un[0] ** 2 + un[1] ** 2) ** 0.5
                 for kk in range(self.n):
                     end = self.ends[kk]
@@ -938,7 +939,9 @@ class FlexPath(object):
         if self.gdsii_path:
             sign = 1 if self.width_transform else -1
         else:
-            self.to_polygonset().to_gds(outfile, multiplier)
+            polygons = self.to_polygonset()
+            if polygons is not None:
+                polygons.to_gds(outfile, multiplier)
             return
         un = self.points[1:] - self.points[:-1]
         un2 = un[:, 0] ** 2 + un[:, 1] ** 2
@@ -1148,7 +1151,10 @@ class FlexPath(object):
         out : number, dictionary
             Area of this object.
         """
-        return self.to_polygonset().area(by_spec)
+        polygons = self.to_polygonset()
+        if polygons is None:
+            return {} if by_spec else 0
+        return polygons.area(by_spec)
 
     def translate(self, dx, dy):
         """
@@ -1964,6 +1970,8 @@ class RobustPath(object):
             polygon, or dictionary with the list of polygons (if
             `by_spec` is True).
         """
+        if len(self.paths[0]) == 0:
+            return {} if by_spec else []
         if self._polygon_dict is None:
             self._polygon_dict = {}
             for path, end, layer, datatype in zip(
@@ -2375,7 +2383,10 @@ class RobustPath(object):
         out : number, dictionary
             Area of this object.
         """
-        return self.to_polygonset().area(by_spec)
+        polygons = self.to_polygonset()
+        if polygons is None:
+            return {} if by_spec else 0
+        return polygons.area(by_spec)
 
     def translate(self, dx, dy):
         """
-- 
2.43.0


From 8f87d16f42fc7c2f7f8a5ef16c73d0602944db0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:21 +0000
Subject: [PATCH 30/67] fix: bounding boxes do not follow changes in the
 elements and dependencies of a cell

---
 gdspy/library.py | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index b5b69e2..27507eb 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -561,9 +561,15 @@ class Cell(object):
             Bounding box of this cell [[x_min, y_min], [x_max, y_max]],
             or None if the cell is empty.
         """
-        deps_still_valid = all(ref._bb_valid for ref in self.get_dependencies(True))
-        cached_bbox_still_valid = self._bb_valid and deps_still_valid
-        if not cached_bbox_still_valid:
+        # Elements can be modified at any time, here and in the dependencies,
+        # so the boxes are only kept during a single calculation.
+        self._bb_valid = False
+        for cell in self.get_dependencies(True):
+            cell._bb_valid = False
+        return self._get_bounding_box()
+
+    def _get_bounding_box(self):
+        if not self._bb_valid:
             bb = numpy.array(((1e300, 1e300), (-1e300, -1e300)))
             all_polygons = []
             for polygon in self.polygons:
@@ -571,7 +577,7 @@ class Cell(object):
             for path in self.paths:
                 all_polygons.extend(path.get_polygons())
             for reference in self.references:
-                reference_bb = reference.get_bounding_box()
+                reference_bb = reference._get_bounding_box()
                 if reference_bb is not None:
                     all_polygons.append(reference_bb)
             if len(all_polygons) > 0:
@@ -1502,11 +1508,16 @@ class CellReference(object):
             Bounding box of this cell [[x_min, y_min], [x_max, y_max]],
             or None if the cell is empty.
         """
+        if isinstance(self.ref_cell, Cell):
+            # Discard the boxes kept by previous calculations
+            self.ref_cell.get_bounding_box()
+        return self._get_bounding_box()
+
+    def _get_bounding_box(self):
         if not isinstance(self.ref_cell, Cell):
             return None
-
         if self.rotation is None or self.rotation % 90 == 0:
-            cell_bbox = self.ref_cell.get_bounding_box()
+            cell_bbox = self.ref_cell._get_bounding_box()
             if cell_bbox is None:
                 return None
             polygons = self._transform_polygons([cell_bbox])
@@ -2136,10 +2147,16 @@ class CellArray(object):
             Bounding box of this cell [[x_min, y_min], [x_max, y_max]],
             or None if the cell is empty.
         """
+        if isinstance(self.ref_cell, Cell):
+            # Discard the boxes kept by previous calculations
+            self.ref_cell.get_bounding_box()
+        return self._get_bounding_box()
+
+    def _get_bounding_box(self):
         if not isinstance(self.ref_cell, Cell):
             return None
         if self.rotation is None or self.rotation % 90 == 0:
-            cell_bbox = self.ref_cell.get_bounding_box()
+            cell_bbox = self.ref_cell._get_bounding_box()
             if cell_bbox is None:
                 return None
             polygons = self._transform_polygons([cell_bbox])
-- 
2.43.0


From d1c373cbbaeda8a169264642369b94899c5a6da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:37 +0000
Subject: [PATCH 31/67] fix: remove_polygons leaves tuples in the polygon sets,
 which other operations cannot change

---
 gdspy/library.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 27507eb..b68ba7d 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -375,9 +375,9 @@ class Cell(object):
                 pass  # we don't need no empty polygons!
             else:
                 polys, layers, dts = zip(*pld)
-                element.polygons = polys
-                element.layers = layers
-                element.datatypes = dts
+                element.polygons = list(polys)
+                element.layers = list(layers)
+                element.datatypes = list(dts)
                 filtered_polys.append(element)
         self.polygons = filtered_polys
         return self
-- 
2.43.0


From da61c73ac83c045bd104c35549a45fd65e1d4099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:13 +0000
Subject: [PATCH 32/67] fix: Cell.copy with a transformation loses the
 reflection of labels and references

---
 gdspy/library.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index b68ba7d..ad2a36d 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -258,7 +258,7 @@ class Cell(object):
                 path.transform(translation, rotation, scale, x_reflection)
 
             for lbl in new_cell.labels:
-                r0 = -1 if lbl.x_reflection is None else 1
+                r0 = -1 if lbl.x_reflection else 1
                 s0 = 1 if lbl.magnification is None else lbl.magnification
                 t0 = 0 if lbl.rotation is None else (lbl.rotation * numpy.pi / 180)
                 dx0, dy0 = lbl.position
@@ -275,7 +275,7 @@ class Cell(object):
                 lbl.x_reflection = r * r0 < 0
 
             for ref in new_cell.references:
-                r0 = -1 if ref.x_reflection is None else 1
+                r0 = -1 if ref.x_reflection else 1
                 s0 = 1 if ref.magnification is None else ref.magnification
                 t0 = 0 if ref.rotation is None else (ref.rotation * numpy.pi / 180)
                 dx0, dy0 = ref.origin
-- 
2.43.0


From 6b56d595b2e86108bb6f4fed5521f3881dacab22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:21 +0000
Subject: [PATCH 33/67] fix: Cell.copy with scale does not scale the spacing of
 arrays

---
 gdspy/library.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gdspy/library.py b/gdspy/library.py
index ad2a36d..ea23054 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -290,6 +290,8 @@ class Cell(object):
                 if ref.magnification == 1:
                     ref.magnification = None
                 ref.x_reflection = r * r0 < 0
+                if isinstance(ref, CellArray):
+                    ref.spacing = (s * ref.spacing[0], s * ref.spacing[1])
 
         return new_cell
 
-- 
2.43.0


From 424db2cff31797874aec75062bffd445ad3e43f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:28 +0000
Subject: [PATCH 34/67] fix: references in deep copies of a cell share their
 properties with the original

---
 gdspy/library.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index ea23054..9cc4c9d 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -234,7 +234,11 @@ class Cell(object):
         new_cell.polygons = libcopy.deepcopy(self.polygons)
         new_cell.paths = libcopy.deepcopy(self.paths)
         new_cell.labels = libcopy.deepcopy(self.labels)
-        new_cell.references = [libcopy.copy(ref) for ref in self.references]
+        # Copy everything but the referenced cells
+        new_cell.references = [
+            libcopy.deepcopy(ref, {id(ref.ref_cell): ref.ref_cell})
+            for ref in self.references
+        ]
 
         if transform:
             r = -1 if x_reflection else 1
-- 
2.43.0


From d3344cd5d81229d57678df7d3b827a84ef1481f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:52 +0000
Subject: [PATCH 35/67] fix: labels get the reflection of all references and
 are not rotated accordingly

---
 gdspy/library.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 9cc4c9d..e9dde92 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -1495,8 +1495,10 @@ class CellReference(object):
                         lbl.magnification *= self.magnification
                     else:
                         lbl.magnification = self.magnification
-                if self.x_reflection is not None:
+                if self.x_reflection:
                     lbl.x_reflection = not lbl.x_reflection
+                    if lbl.rotation is not None:
+                        lbl.rotation = -lbl.rotation
                 if self.rotation is not None:
                     if lbl.rotation is not None:
                         lbl.rotation += self.rotation
@@ -2133,8 +2135,10 @@ class CellArray(object):
                                 lbl.magnification *= self.magnification
                             else:
                                 lbl.magnification = self.magnification
-                        if self.x_reflection is not None:
+                        if self.x_reflection:
                             lbl.x_reflection = not lbl.x_reflection
+                            if lbl.rotation is not None:
+                                lbl.rotation = -lbl.rotation
                         if self.rotation is not None:
                             if lbl.rotation is not None:
                                 lbl.rotation += self.rotation
-- 
2.43.0


From 12851495e9e24922766b866fbf7170b730221f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:59 +0000
Subject: [PATCH 36/67] fix: copy of a reference also copies the referenced
 cell and its dependencies

---
 gdspy/operation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gdspy/operation.py b/gdspy/operation.py
index 65f00d0..7500be8 100644
--- a/gdspy/operation.py
+++ b/gdspy/operation.py
@@ -320,7 +320,9 @@ def copy(obj, dx=0, dy=0):
     >>> myCell.add(rectangle2)
     """
 
-    newObj = libcopy.deepcopy(obj)
+    # References to the same cell, not to a copy of it
+    ref_cell = getattr(obj, "ref_cell", None)
+    newObj = libcopy.deepcopy(obj, {id(ref_cell): ref_cell})
     if dx != 0 or dy != 0:
         newObj.translate(dx, dy)
     return newObj
-- 
2.43.0


From 3945247f6f76688e1137e29f7c99d708620ffefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:46 +0000
Subject: [PATCH 37/67] fix: refused additions leave part of the cells in the
 library; references and dependencies of overwritten cells depend on chance

---
 gdspy/library.py | 49 ++++++++++++++++++++++++------------------------
 1 file changed, 24 insertions(+), 25 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index e9dde92..6f104ed 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -2382,32 +2382,31 @@ class GdsLibrary(object):
         out : `GdsLibrary`
             This object.
         """
-        if isinstance(cell, Cell):
-            cell_set = set([cell])
-            if include_dependencies:
-                cell_set.update(cell.get_dependencies(True))
-        else:
-            cell_set = set(cell)
-            if include_dependencies:
-                for c in cell:
-                    cell_set.update(c.get_dependencies(True))
-        for c in cell_set:
-            if (
-                not overwrite_duplicate
-                and c.name in self.cells
-                and self.cells[c.name] is not c
-            ):
-                raise ValueError(
-                    "[GDSPY] Cell named {0} already present in library.".format(c.name)
-                )
-            if (
-                overwrite_duplicate
-                and update_references
-                and c.name in self.cells
-                and self.cells[c.name] is not c
-            ):
-                self.replace_references(c.name, c)
+        cells = [cell] if isinstance(cell, Cell) else list(cell)
+        if include_dependencies:
+            dependencies = set()
+            for c in cells:
+                dependencies.update(c.get_dependencies(True))
+            # The cells explicitly added prevail over dependencies
+            cells = list(dependencies.difference(cells)) + cells
+        if not overwrite_duplicate:
+            # Check all cells before any is included
+            present = dict(self.cells)
+            for c in cells:
+                if present.setdefault(c.name, c) is not c:
+                    raise ValueError(
+                        "[GDSPY] Cell named {0} already present in library.".format(
+                            c.name
+                        )
+                    )
+        replaced = set()
+        for c in cells:
+            if self.cells.get(c.name, c) is not c:
+                replaced.add(c.name)
             self.cells[c.name] = c
+        if update_references:
+            for name in replaced:
+                self.replace_references(name, self.cells[name])
         return self
 
     def remove(self, cell, remove_references=True):
-- 
2.43.0


From e075499c7395caad79b496d5e0c504d70477d46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:09 +0000
Subject: [PATCH 38/67] fix: polygons of paths do not follow changes of layers
 and datatypes (as in flatten)

---
 gdspy/path.py | 38 ++++++++++++++++----------------------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 3301741..41b7e03 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -566,11 +566,7 @@ class FlexPath(object):
                                 )
                             else:
                                 ii += 1
-                    key = (self.layers[kk], self.datatypes[kk])
-                    if key in self._polygon_dict:
-                        self._polygon_dict[key].extend(polygons)
-                    else:
-                        self._polygon_dict[key] = polygons
+                    self._polygon_dict[kk] = polygons
             else:
                 # More than 1 path or more than 2 points
                 un = self.points[1:] - self.points[:-1]
@@ -882,15 +878,15 @@ class FlexPath(object):
                                 )
                             else:
                                 ii += 1
-                    key = (self.layers[kk], self.datatypes[kk])
-                    if key in self._polygon_dict:
-                        self._polygon_dict[key].extend(polygons)
-                    else:
-                        self._polygon_dict[key] = polygons
+                    self._polygon_dict[kk] = polygons
+        # The cache has polygons of each path: layers and datatypes can change
+        polygon_dict = {}
+        for kk, key in enumerate(zip(self.layers, self.datatypes)):
+            polygon_dict.setdefault(key, []).extend(self._polygon_dict[kk])
         if by_spec:
-            return libcopy.deepcopy(self._polygon_dict)
+            return libcopy.deepcopy(polygon_dict)
         else:
-            return list(itertools.chain.from_iterable(self._polygon_dict.values()))
+            return list(itertools.chain.from_iterable(polygon_dict.values()))
 
     def to_polygonset(self):
         """
@@ -1974,9 +1970,7 @@ class RobustPath(object):
             return {} if by_spec else []
         if self._polygon_dict is None:
             self._polygon_dict = {}
-            for path, end, layer, datatype in zip(
-                self.paths, self.ends, self.layers, self.datatypes
-            ):
+            for kk, (path, end) in enumerate(zip(self.paths, self.ends)):
                 poly = []
                 for arm in [-1, 1]:
                     if not (end == "flush"):
@@ -2131,15 +2125,15 @@ class RobustPath(object):
                             )
                         else:
                             ii += 1
-                key = (layer, datatype)
-                if key in self._polygon_dict:
-                    self._polygon_dict[key].extend(polygons)
-                else:
-                    self._polygon_dict[key] = polygons
+                self._polygon_dict[kk] = polygons
+        # The cache has polygons of each path: layers and datatypes can change
+        polygon_dict = {}
+        for kk, key in enumerate(zip(self.layers, self.datatypes)):
+            polygon_dict.setdefault(key, []).extend(self._polygon_dict[kk])
         if by_spec:
-            return libcopy.deepcopy(self._polygon_dict)
+            return libcopy.deepcopy(polygon_dict)
         else:
-            return list(itertools.chain.from_iterable(self._polygon_dict.values()))
+            return list(itertools.chain.from_iterable(polygon_dict.values()))
 
     def to_polygonset(self):
         """
-- 
2.43.0


From 974519bfebea3a8ff677099a509580dc14544874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:17 +0000
Subject: [PATCH 39/67] fix: get_polygons of paths returns the arrays it keeps
 for later calls

---
 gdspy/path.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 41b7e03..9b003ee 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -883,8 +883,9 @@ class FlexPath(object):
         polygon_dict = {}
         for kk, key in enumerate(zip(self.layers, self.datatypes)):
             polygon_dict.setdefault(key, []).extend(self._polygon_dict[kk])
+        polygon_dict = libcopy.deepcopy(polygon_dict)
         if by_spec:
-            return libcopy.deepcopy(polygon_dict)
+            return polygon_dict
         else:
             return list(itertools.chain.from_iterable(polygon_dict.values()))
 
@@ -2130,8 +2131,9 @@ class RobustPath(object):
         polygon_dict = {}
         for kk, key in enumerate(zip(self.layers, self.datatypes)):
             polygon_dict.setdefault(key, []).extend(self._polygon_dict[kk])
+        polygon_dict = libcopy.deepcopy(polygon_dict)
         if by_spec:
-            return libcopy.deepcopy(polygon_dict)
+            return polygon_dict
         else:
             return list(itertools.chain.from_iterable(polygon_dict.values()))
 
-- 
2.43.0


From 31b5273a195f43d5dba77f1971b262d34a092dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:15 +0000
Subject: [PATCH 40/67] fix: scaling a Path does not scale the distance between
 parallel paths and its length

---
 gdspy/polygon.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index bffa80d..382cc4b 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -1221,7 +1221,7 @@ class Path(PolygonSet):
         Notes
         -----
         The direction of the path is not modified by this method and
-        its width is scaled only by `scalex`.
+        its width, distance, and length are scaled only by `scalex`.
         """
         c0 = numpy.array(center)
         s = scalex if scaley is None else numpy.array((scalex, scaley))
@@ -1229,6 +1229,8 @@ class Path(PolygonSet):
         self.x = (self.x - c0[0]) * scalex + c0[0]
         self.y = (self.y - c0[1]) * (scalex if scaley is None else scaley) + c0[1]
         self.w *= scalex
+        self.distance *= scalex
+        self.length *= abs(scalex)
         return self
 
     def mirror(self, p1, p2=(0, 0)):
-- 
2.43.0


From b82925baffa215be82ed6478960d0d9e524dca56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:22 +0000
Subject: [PATCH 41/67] fix: final position of L1Path pointing to -y

---
 gdspy/polygon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index 382cc4b..e3e7e31 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -2297,7 +2297,7 @@ class L1Path(PolygonSet):
                 d0 = (number_of_paths - 1) * distance * 0.5 - ii * distance
                 paths[ii][0].append((paths[ii][0][-1][0], self.y - length[-1]))
                 paths[ii][1].append((paths[ii][1][-1][0], self.y - length[-1]))
-            self.y -= length[jj]
+            self.y -= length[-1]
         self.direction = ["+x", "+y", "-x", "-y"][direction]
         self.polygons.extend(numpy.array(p[0] + p[1][::-1]) for p in paths)
         self.layers.extend(layer)
-- 
2.43.0


From 67b16a2d9bb129f2fe64960d558f1c81589c88b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:29 +0000
Subject: [PATCH 42/67] fix: translation, scaling and mirroring of L1Path do
 not transform its final position

---
 gdspy/polygon.py | 74 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 74 insertions(+)

diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index e3e7e31..df51b0f 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -2342,6 +2342,80 @@ class L1Path(PolygonSet):
         ]
         return self
 
+    def translate(self, dx, dy):
+        """
+        Translate this object.
+
+        Parameters
+        ----------
+        dx : number
+            Distance to move in the x-direction.
+        dy : number
+            Distance to move in the y-direction.
+
+        Returns
+        -------
+        out : `L1Path`
+            This object.
+        """
+        self.x += dx
+        self.y += dy
+        return super(L1Path, self).translate(dx, dy)
+
+    def scale(self, scalex, scaley=None, center=(0, 0)):
+        """
+        Scale this object.
+
+        Parameters
+        ----------
+        scalex : number
+            Scaling factor along the first axis.
+        scaley : number or None
+            Scaling factor along the second axis.  If None, same as
+            `scalex`.
+        center : array-like[2]
+            Center point for the scaling operation.
+
+        Returns
+        -------
+        out : `L1Path`
+            This object.
+
+        Notes
+        -----
+        The direction of the path is not modified by this method.
+        """
+        self.x = (self.x - center[0]) * scalex + center[0]
+        self.y = (self.y - center[1]) * (scalex if scaley is None else scaley) + center[1]
+        return super(L1Path, self).scale(scalex, scaley, center)
+
+    def mirror(self, p1, p2=(0, 0)):
+        """
+        Mirror the polygons over a line through points 1 and 2
+
+        Parameters
+        ----------
+        p1 : array-like[2]
+            first point defining the reflection line
+        p2 : array-like[2]
+            second point defining the reflection line
+
+        Returns
+        -------
+        out : `L1Path`
+            This object.
+        """
+        origin = numpy.array(p1)
+        vec = numpy.array(p2) - origin
+        vec_r = vec * (2 / numpy.inner(vec, vec))
+        dot = (self.x - origin[0]) * vec_r[0] + (self.y - origin[1]) * vec_r[1]
+        self.x = dot * vec[0] - self.x + 2 * origin[0]
+        self.y = dot * vec[1] - self.y + 2 * origin[1]
+        if isinstance(self.direction, basestring):
+            self.direction = _directions_dict[self.direction] * numpy.pi
+        self.direction = 2 * numpy.arctan2(vec[1], vec[0]) - self.direction
+        return super(L1Path, self).mirror(p1, p2)
+
 
 class PolyPath(PolygonSet):
     """
-- 
2.43.0


From 0d7bd58d0df4598eacdd857201beca60da6919aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:07 +0000
Subject: [PATCH 43/67] fix: scaling paths by negative factors flips their
 offsets, widths and end extensions

---
 gdspy/path.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 9b003ee..fd6e5c4 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -1221,9 +1221,9 @@ class FlexPath(object):
         c0 = numpy.array(center) * (1 - scale)
         self.points = self.points * scale + c0
         if self.width_transform or not self.gdsii_path:
-            self.widths = self.widths * scale
-        self.offsets = self.offsets * scale
-        self._scale_styles(scale)
+            self.widths = self.widths * abs(scale)
+        self.offsets = self.offsets * abs(scale)
+        self._scale_styles(abs(scale))
         return self
 
     def _scale_styles(self, scale):
@@ -1279,9 +1279,9 @@ class FlexPath(object):
             sin = sin * scale
             array_trans = array_trans / scale
             if self.width_transform or not self.gdsii_path:
-                self.widths = self.widths * scale
-            self.offsets = self.offsets * scale
-            self._scale_styles(scale)
+                self.widths = self.widths * abs(scale)
+            self.offsets = self.offsets * abs(scale)
+            self._scale_styles(abs(scale))
         if x_reflection:
             cos[1] = -cos[1]
             sin[0] = -sin[0]
@@ -2460,7 +2460,7 @@ class RobustPath(object):
         self._polygon_dict = None
         c0 = numpy.array(center) * (1 - scale)
         self.x = self.x * scale + c0
-        self._scale_styles(scale)
+        self._scale_styles(abs(scale))
         for path in self.paths:
             for sub in path:
                 sub.scale(scale)
@@ -2511,7 +2511,7 @@ class RobustPath(object):
         self._polygon_dict = None
         if scale is not None:
             self.x = self.x * scale
-            self._scale_styles(scale)
+            self._scale_styles(abs(scale))
             for path in self.paths:
                 for sub in path:
                     sub.scale(scale)
-- 
2.43.0


From 97c0dc50012b923fa273763249d95c586956b238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:21 +0000
Subject: [PATCH 44/67] fix: round corners on the wrong side of tapered
 FlexPaths

---
 gdspy/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index fd6e5c4..abd0938 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -732,7 +732,7 @@ class FlexPath(object):
                                     arms[ii].append(p0)
                                     arms[ii].append(p1)
                                 elif corner == "round":
-                                    if v0[1] * v1[0] - v0[0] * v1[1] < 0:
+                                    if ii == 0:
                                         a0 = numpy.arctan2(-v0[0], v0[1])
                                         a1 = numpy.arctan2(-v1[0], v1[1])
                                     else:
-- 
2.43.0


From 1a9e1a7ee5821a026a6dc24b2cc14c3629f23aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:28 +0000
Subject: [PATCH 45/67] fix: spikes of miter and smooth corners next to tapers
 of FlexPaths

---
 gdspy/path.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index abd0938..748e405 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -723,7 +723,12 @@ class FlexPath(object):
                                     dy = p1[1] - p0[1]
                                     u0 = (v1[1] * dx - v1[0] * dy) / den
                                     u1 = (v0[1] * dx - v0[0] * dy) / den
-                                    p = 0.5 * (p0 + v0 * u0 + p1 + v1 * u1)
+                                    if u0 * u1 > 0:
+                                        # Almost parallel tapers don't meet here
+                                        u0 = u1 = 0
+                                        p = 0.5 * (p0 + p1)
+                                    else:
+                                        p = 0.5 * (p0 + v0 * u0 + p1 + v1 * u1)
                                 if corner == "miter":
                                     arms[ii].append(p)
                                 elif u0 <= 0 and u1 >= 0:
-- 
2.43.0


From 9ce015190e625b3a473fb140f9549dca0d1671da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:41 +0000
Subject: [PATCH 46/67] fix: arcs of FlexPaths with large negative offsets
 exceed their tolerance

---
 gdspy/path.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 748e405..1e7527e 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -1393,7 +1393,8 @@ class FlexPath(object):
         else:
             off = self.offsets[-1] + offset
         rmax = radius + max(
-            (self.offsets[-1] + self.widths[-1]).max(), (off + wid).max()
+            (numpy.abs(self.offsets[-1]) + self.widths[-1]).max(),
+            (numpy.abs(off) + wid).max(),
         )
         np = max(
             3,
-- 
2.43.0


From 8acd6c60f6246c445bc829cbca2974c7d10a0329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:18 +0000
Subject: [PATCH 47/67] fix: numeric offsets of smooth are added once for each
 section

---
 gdspy/path.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/gdspy/path.py b/gdspy/path.py
index 1e7527e..841ab7f 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -1694,6 +1694,9 @@ class FlexPath(object):
         else:
             points = numpy.vstack((self.points[-1:], points))
         cta, ctb = _hobby(points, angles, curl_start, curl_end, t_in, t_out, cycle)
+        if offset is not None and not hasattr(offset, "__iter__"):
+            # The increase is shared by all sections of the curve
+            offset = offset / float(points.shape[0] - (0 if cycle else 1))
         for i in range(points.shape[0] - 1):
             self.bezier((cta[i], ctb[i], points[i + 1]), width, offset, False)
         if cycle:
@@ -2960,6 +2963,11 @@ class RobustPath(object):
         else:
             points = numpy.vstack(([self.x], points))
         cta, ctb = _hobby(points, angles, curl_start, curl_end, t_in, t_out, cycle)
+        if not (
+            offset is None or callable(offset) or hasattr(offset, "__iter__")
+        ):
+            # The increase is shared by all sections of the curve
+            offset = offset / float(points.shape[0] - (0 if cycle else 1))
         for i in range(points.shape[0] - 1):
             self.bezier((cta[i], ctb[i], points[i + 1]), width, offset, False)
         if cycle:
-- 
2.43.0


From 1f96654a67a8147ccd8e30bdd5e6ceab00cfeb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:08 +0000
Subject: [PATCH 48/67] fix: smooth interpolation of a single point without
 angles fails

---
 gdspy/hobby.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gdspy/hobby.py b/gdspy/hobby.py
index cb1923e..1b19d2a 100644
--- a/gdspy/hobby.py
+++ b/gdspy/hobby.py
@@ -210,7 +210,11 @@ def _hobby(points, angles=None, curl_start=1, curl_end=1, t_in=1, t_out=1, cycle
                 coef[2 * nn - 1] = phi[j - 1]
                 m[2 * nn - 1, nn - 1] = 0
                 m[2 * nn - 1, 2 * nn - 1] = 1
-            if nn > 1 or angles[i] is None or angles[j] is None:
+            if nn == 1 and angles[i] is None and angles[j] is None:
+                # Straight segment (the system is singular)
+                theta[i] = 0
+                phi[i] = 0
+            elif nn > 1 or angles[i] is None or angles[j] is None:
                 # print("range:", i, j)
                 # print("A =", m)
                 # print("b =", coef)
-- 
2.43.0


From 3ad29660a6c6b9d0b1758972ce25a3c15065dcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 49/67] fix: offset tapers of FlexPath meet far from almost
 straight corners

---
 gdspy/path.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gdspy/path.py b/gdspy/path.py
index 841ab7f..c7c2bde 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -600,6 +600,13 @@ class FlexPath(object):
                         ds = sb[:-1] - sa[1:]
                         u0 = (vn[1:, 1] * ds[:, 0] - vn[1:, 0] * ds[:, 1]) / den
                         u1 = (vn[:-1, 1] * ds[:, 0] - vn[:-1, 0] * ds[:, 1]) / den
+                        # Almost parallel tapers meet beyond the segments
+                        far = numpy.maximum(numpy.abs(u0), numpy.abs(u1)) > 1
+                        far = numpy.nonzero(numpy.logical_and(u0 * u1 > 0, far))[0]
+                        if len(far) > 0:
+                            idx = numpy.union1d(idx, far)
+                            u0[far] = 0
+                            u1[far] = 0
                         if any(u0 < -1) or any(u1 > 1):
                             warnings.warn(
                                 "[GDSPY] Possible inconsistency found in "
-- 
2.43.0


From 3133c017768a2a33c65ecce3f18a2564e7598720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:32 +0000
Subject: [PATCH 50/67] fix: angles of ellipses close to half a turn are off by
 a full turn

---
 gdspy/polygon.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index df51b0f..3a91f5b 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -757,10 +757,9 @@ class Round(PolygonSet):
             radius = max(radius)
 
             def outer_transform(a):
-                r = a - ((a + numpy.pi) % (2 * numpy.pi) - numpy.pi)
-                t = numpy.arctan2(orx * numpy.sin(a), ory * numpy.cos(a)) + r
-                t[a == numpy.pi] = numpy.pi
-                return t
+                t = numpy.arctan2(orx * numpy.sin(a), ory * numpy.cos(a))
+                # Never more than a quarter turn away from a
+                return t + 2 * numpy.pi * numpy.round((a - t) / (2 * numpy.pi))
 
         else:
             orx = ory = radius
@@ -773,10 +772,9 @@ class Round(PolygonSet):
             inner_radius = max(inner_radius)
 
             def inner_transform(a):
-                r = a - ((a + numpy.pi) % (2 * numpy.pi) - numpy.pi)
-                t = numpy.arctan2(irx * numpy.sin(a), iry * numpy.cos(a)) + r
-                t[a == numpy.pi] = numpy.pi
-                return t
+                t = numpy.arctan2(irx * numpy.sin(a), iry * numpy.cos(a))
+                # Never more than a quarter turn away from a
+                return t + 2 * numpy.pi * numpy.round((a - t) / (2 * numpy.pi))
 
         else:
             irx = iry = inner_radius
-- 
2.43.0


From e7d6a3104a78f1d0aa6f600fe0add04d2314a813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:29 +0000
Subject: [PATCH 51/67] fix: sections of circles have one chord less than the
 tolerance needs

---
 gdspy/polygon.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index 3a91f5b..28d9417 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -804,6 +804,9 @@ class Round(PolygonSet):
             )
             if inner_radius > 0:
                 number_of_points *= 2
+            elif final_angle != initial_angle:
+                # The center is also a vertex
+                number_of_points += 1
 
         pieces = (
             1
-- 
2.43.0


From 22b27b0129d88ba6a5ea20714d7da6418fcba568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:33 +0000
Subject: [PATCH 52/67] fix: sections of ellipses exceed their tolerance

---
 gdspy/polygon.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index 28d9417..e1bf1fe 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -793,11 +793,14 @@ class Round(PolygonSet):
             number_of_points = None
 
         if number_of_points is None:
-            full_angle = (
-                2 * numpy.pi
-                if final_angle == initial_angle
-                else abs(final_angle - initial_angle)
-            )
+            if final_angle == initial_angle:
+                full_angle = 2 * numpy.pi
+            else:
+                limits = numpy.array((initial_angle, final_angle))
+                full_angle = abs(numpy.diff(outer_transform(limits))[0])
+                if inner_radius > 0:
+                    inner_angle = abs(numpy.diff(inner_transform(limits))[0])
+                    full_angle = max(full_angle, inner_angle)
             number_of_points = max(
                 3,
                 1 + int(0.5 * full_angle / _arc_step(tolerance, radius) + 0.5),
-- 
2.43.0


From 45919b95fd4eeb96f62b002206731231bc98c80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:14 +0000
Subject: [PATCH 53/67] fix: wrong number of fillet radii for a polygon raises
 TypeError

---
 gdspy/polygon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index e1bf1fe..9d25270 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -464,7 +464,7 @@ class PolygonSet(object):
                             raise ValueError(
                                 "[GDSPY] Wrong length in fillet radius list.  "
                                 "Found {} radii for polygon with {} vertices.".format(
-                                    len(r), len(p.shape[0])
+                                    len(r), p.shape[0]
                                 )
                             )
                         radii.append(r)
-- 
2.43.0


From 0699b891edffc65da672566bb325444888908a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:50 +0000
Subject: [PATCH 54/67] fix: malformed sequences corrupt reference counts or
 abort in the clipper module

---
 gdspy/clipper.cpp | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/gdspy/clipper.cpp b/gdspy/clipper.cpp
index b0c7326..03ccc9a 100644
--- a/gdspy/clipper.cpp
+++ b/gdspy/clipper.cpp
@@ -4641,43 +4641,45 @@ std::ostream& operator <<(std::ostream &s, const Paths &p)
 short parse_polygon(PyObject *py_polygon, Path &path, double scaling, bool check_orientation)
 {
   /* Parse a complete polygon */
+  // The caller keeps (and releases) its reference to py_polygon
   PyObject *py_point, *py_coord;
-  long num_points = PySequence_Length(py_polygon);
   double orientation = 0;  // products of coordinates do not fit in cInt
 
   if (!PySequence_Check(py_polygon))
   {
-    Py_DECREF(py_polygon);
     PyErr_SetString(PyExc_TypeError, "Polygon must be a sequence.");
     return -1;
   }
 
+  long num_points = PySequence_Length(py_polygon);
+  if (num_points < 0) return -1;
+
   path.resize(num_points);
   for (long j = 0; j < num_points; ++j)
   {
-    if ((py_point = PySequence_ITEM(py_polygon, j)) == NULL)
-    {
-      Py_DECREF(py_polygon);
-      return -1;
-    }
+    if ((py_point = PySequence_ITEM(py_polygon, j)) == NULL) return -1;
     if ((py_coord = PySequence_GetItem(py_point, 0)) == NULL)
     {
       Py_DECREF(py_point);
-      Py_DECREF(py_polygon);
       return -1;
     }
     double x = PyFloat_AsDouble(py_coord);
     Py_DECREF(py_coord);
+    if (PyErr_Occurred() != NULL)
+    {
+      Py_DECREF(py_point);
+      return -1;
+    }
 
     if ((py_coord = PySequence_GetItem(py_point, 1)) == NULL)
     {
       Py_DECREF(py_point);
-      Py_DECREF(py_polygon);
       return -1;
     }
     double y = PyFloat_AsDouble(py_coord);
     Py_DECREF(py_coord);
     Py_DECREF(py_point);
+    if (PyErr_Occurred() != NULL) return -1;
     path[j].X = Round(scaling * x);
     path[j].Y = Round(scaling * y);
 #ifdef DEBUG
@@ -4702,6 +4704,7 @@ short parse_polygon_set(PyObject *polyset, Paths &paths, double scaling, bool ch
 {
   PyObject *py_polygon;
   long num = PySequence_Length(polyset);
+  if (num < 0) return -1;
 
   paths.resize(num);
   for (long i = 0; i < num; ++i)
@@ -5216,6 +5219,7 @@ static PyObject* chop(PyObject *self, PyObject *args)
     return NULL;
   }
   num_cuts = PySequence_Length(positions);
+  if (num_cuts < 0) return NULL;
 
   if ((returntuple = PyTuple_New(num_cuts + 1)) == NULL) return NULL;
 
@@ -5227,7 +5231,11 @@ static PyObject* chop(PyObject *self, PyObject *args)
       clip[0][0].X = clip[0][3].X = pos;
       if (i < num_cuts)
       {
-        position = PySequence_ITEM(positions, i);
+        if ((position = PySequence_ITEM(positions, i)) == NULL)
+        {
+          Py_DECREF(returntuple);
+          return NULL;
+        }
         pos = Round(scaling * PyFloat_AsDouble(position));
         Py_DECREF(position);
         if (PyErr_Occurred() != NULL)
@@ -5248,7 +5256,11 @@ static PyObject* chop(PyObject *self, PyObject *args)
       clip[0][0].Y = clip[0][1].Y = pos;
       if (i < num_cuts)
       {
-        position = PySequence_ITEM(positions, i);
+        if ((position = PySequence_ITEM(positions, i)) == NULL)
+        {
+          Py_DECREF(returntuple);
+          return NULL;
+        }
         pos = Round(scaling * PyFloat_AsDouble(position));
         Py_DECREF(position);
         if (PyErr_Occurred() != NULL)
-- 
2.43.0


From 4c12f83187108d3e2e60466be7685374d89d1632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:54 +0000
Subject: [PATCH 55/67] fix: inside and slice read out of bounds when there are
 no polygons or points

---
 gdspy/clipper.cpp | 31 ++++++++++++-------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/gdspy/clipper.cpp b/gdspy/clipper.cpp
index 03ccc9a..67a9586 100644
--- a/gdspy/clipper.cpp
+++ b/gdspy/clipper.cpp
@@ -4934,12 +4934,11 @@ PyObject* build_polygon_tuple(Paths &polygons, double scaling)
 
 //------------------------------------------------------------------------------
 
-cInt bounding_box(Path& points, cInt* bb)
+// The bounding box of no points contains nothing
+void bounding_box(Path& points, cInt* bb)
 {
-  bb[0] = points[0].X;
-  bb[1] = points[0].X;
-  bb[2] = points[0].Y;
-  bb[3] = points[0].Y;
+  bb[0] = bb[2] = hiRange;
+  bb[1] = bb[3] = -hiRange;
   for(Path::iterator it = points.begin(); it != points.end(); ++it)
   {
      if (it->X < bb[0]) bb[0] = it->X;
@@ -4947,7 +4946,6 @@ cInt bounding_box(Path& points, cInt* bb)
      if (it->Y < bb[2]) bb[2] = it->Y;
      if (it->Y > bb[3]) bb[3] = it->Y;
   }
-  return (bb[1] - bb[0])*(bb[3] - bb[2]);
 }
 
 //------------------------------------------------------------------------------
@@ -5079,26 +5077,23 @@ static PyObject* inside(PyObject *self, PyObject *args)
   unsigned long numgroups = groups.size();
   unsigned long numpolygons = polygons.size();
   std::vector<cInt*> polygons_bb(numpolygons);
-  std::vector<double> polygons_bb_areas(numpolygons);
 
   // Pre-calculate the bounding boxes of the polygons
   for (unsigned long p = 0; p < numpolygons; ++p)
   {
     polygons_bb[p] = (cInt*) malloc(sizeof(cInt) * 4);
-    polygons_bb_areas[p] = bounding_box(polygons[p], polygons_bb[p]);
+    bounding_box(polygons[p], polygons_bb[p]);
   }
 
   if (short_circuit == 0)
   {
     // No short-circuit
-    unsigned long numpoints = groups[0].size();
+    unsigned long numpoints = numgroups > 0 ? groups[0].size() : 0;
     cInt all_bb[4];
 
-    all_bb[0] = polygons_bb[0][0];
-    all_bb[1] = polygons_bb[0][1];
-    all_bb[2] = polygons_bb[0][2];
-    all_bb[3] = polygons_bb[0][3];
-    for (unsigned long p = 1; p < numpolygons; ++p)
+    all_bb[0] = all_bb[2] = hiRange;
+    all_bb[1] = all_bb[3] = -hiRange;
+    for (unsigned long p = 0; p < numpolygons; ++p)
     {
       if (all_bb[0] > polygons_bb[p][0]) all_bb[0] = polygons_bb[p][0];
       if (all_bb[1] < polygons_bb[p][1]) all_bb[1] = polygons_bb[p][1];
@@ -5148,11 +5143,9 @@ static PyObject* inside(PyObject *self, PyObject *args)
     // Short-circuit: ALL
     cInt all_bb[4];
 
-    all_bb[0] = polygons_bb[0][0];
-    all_bb[1] = polygons_bb[0][1];
-    all_bb[2] = polygons_bb[0][2];
-    all_bb[3] = polygons_bb[0][3];
-    for (unsigned long p = 1; p < numpolygons; ++p)
+    all_bb[0] = all_bb[2] = hiRange;
+    all_bb[1] = all_bb[3] = -hiRange;
+    for (unsigned long p = 0; p < numpolygons; ++p)
     {
       if (all_bb[0] > polygons_bb[p][0]) all_bb[0] = polygons_bb[p][0];
       if (all_bb[1] < polygons_bb[p][1]) all_bb[1] = polygons_bb[p][1];
-- 
2.43.0


From 6be5eec8972e5201b63a3b7029f613abd868edcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:13 +0000
Subject: [PATCH 56/67] fix: coordinates out of range and failed allocations
 abort the interpreter in the clipper module

---
 gdspy/clipper.cpp | 104 ++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 92 insertions(+), 12 deletions(-)

diff --git a/gdspy/clipper.cpp b/gdspy/clipper.cpp
index 67a9586..37ab99d 100644
--- a/gdspy/clipper.cpp
+++ b/gdspy/clipper.cpp
@@ -143,6 +143,8 @@ struct LocMinSorter
 
 inline cInt Round(double val)
 {
+  // Values that are not representable are refused by RangeTest
+  if (!(std::fabs(val) < (double)hiRange)) return val < 0 ? -hiRange - 1 : hiRange + 1;
   if ((val < 0)) return static_cast<cInt>(val - 0.5); 
   else return static_cast<cInt>(val + 0.5);
 }
@@ -4638,6 +4640,44 @@ std::ostream& operator <<(std::ostream &s, const Paths &p)
  * GDSPY additions below this comment                                 *
  **********************************************************************/
 
+// Set the Python exception for the C++ one being handled: none of those can
+// get out of the functions called by Python.
+PyObject* set_exception()
+{
+  try
+  {
+    throw;
+  }
+  catch (std::bad_alloc &)
+  {
+    PyErr_NoMemory();
+  }
+  catch (std::length_error &)
+  {
+    PyErr_NoMemory();
+  }
+  catch (std::exception &e)
+  {
+    PyErr_SetString(PyExc_ValueError, e.what());
+  }
+  return NULL;
+}
+
+//------------------------------------------------------------------------------
+
+short parse_coordinate(double value, cInt &result)
+{
+  if (!(std::fabs(value) < (double)hiRange))
+  {
+    PyErr_SetString(PyExc_ValueError, "Coordinate outside allowed range.");
+    return -1;
+  }
+  result = Round(value);
+  return 0;
+}
+
+//------------------------------------------------------------------------------
+
 short parse_polygon(PyObject *py_polygon, Path &path, double scaling, bool check_orientation)
 {
   /* Parse a complete polygon */
@@ -4654,7 +4694,15 @@ short parse_polygon(PyObject *py_polygon, Path &path, double scaling, bool check
   long num_points = PySequence_Length(py_polygon);
   if (num_points < 0) return -1;
 
-  path.resize(num_points);
+  try
+  {
+    path.resize(num_points);
+  }
+  catch (...)
+  {
+    set_exception();
+    return -1;
+  }
   for (long j = 0; j < num_points; ++j)
   {
     if ((py_point = PySequence_ITEM(py_polygon, j)) == NULL) return -1;
@@ -4680,8 +4728,7 @@ short parse_polygon(PyObject *py_polygon, Path &path, double scaling, bool check
     Py_DECREF(py_coord);
     Py_DECREF(py_point);
     if (PyErr_Occurred() != NULL) return -1;
-    path[j].X = Round(scaling * x);
-    path[j].Y = Round(scaling * y);
+    if (parse_coordinate(scaling * x, path[j].X) != 0 || parse_coordinate(scaling * y, path[j].Y) != 0) return -1;
 #ifdef DEBUG
     std::cout << path[j].X << "," << path[j].Y << std::endl;
 #endif //DEBUG
@@ -4899,7 +4946,7 @@ PyObject* build_polygon_tuple(Paths &polygons, double scaling)
 #ifdef DEBUG
     std::cout << std::endl << "Result " << i << std::endl;
 #endif //DEBUG
-    Path poly = polygons[i];
+    Path &poly = polygons[i];
     PyObject *polyt = PyTuple_New(poly.size());
     if (polyt == NULL)
     {
@@ -4953,6 +5000,7 @@ void bounding_box(Path& points, cInt* bb)
 extern "C" {
 
 static PyObject* clip(PyObject *self, PyObject *args)
+try
 {
   PyObject *polyA, *polyB;
   const char *operation;
@@ -4991,10 +5039,15 @@ static PyObject* clip(PyObject *self, PyObject *args)
   tree2paths(solution, result);
   return build_polygon_tuple(result, scaling);
 }
+catch (...)
+{
+  return set_exception();
+}
 
 //------------------------------------------------------------------------------
 
 static PyObject* offset(PyObject *self, PyObject *args)
+try
 {
   PyObject *polygons;
   const char *join;
@@ -5053,10 +5106,15 @@ static PyObject* offset(PyObject *self, PyObject *args)
   tree2paths(solution, result);
   return build_polygon_tuple(result, scaling);
 }
+catch (...)
+{
+  return set_exception();
+}
 
 //------------------------------------------------------------------------------
 
 static PyObject* inside(PyObject *self, PyObject *args)
+try
 {
   double scaling;
   short short_circuit;
@@ -5179,6 +5237,10 @@ static PyObject* inside(PyObject *self, PyObject *args)
 
   return result;
 }
+catch (...)
+{
+  return set_exception();
+}
 
 static PyObject* chop(PyObject *self, PyObject *args)
 {
@@ -5229,7 +5291,7 @@ static PyObject* chop(PyObject *self, PyObject *args)
           Py_DECREF(returntuple);
           return NULL;
         }
-        pos = Round(scaling * PyFloat_AsDouble(position));
+        double value = PyFloat_AsDouble(position);
         Py_DECREF(position);
         if (PyErr_Occurred() != NULL)
         {
@@ -5237,6 +5299,11 @@ static PyObject* chop(PyObject *self, PyObject *args)
           Py_DECREF(returntuple);
           return NULL;
         }
+        if (parse_coordinate(scaling * value, pos) != 0)
+        {
+          Py_DECREF(returntuple);
+          return NULL;
+        }
       }
       else
       {
@@ -5254,7 +5321,7 @@ static PyObject* chop(PyObject *self, PyObject *args)
           Py_DECREF(returntuple);
           return NULL;
         }
-        pos = Round(scaling * PyFloat_AsDouble(position));
+        double value = PyFloat_AsDouble(position);
         Py_DECREF(position);
         if (PyErr_Occurred() != NULL)
         {
@@ -5262,6 +5329,11 @@ static PyObject* chop(PyObject *self, PyObject *args)
           Py_DECREF(returntuple);
           return NULL;
         }
+        if (parse_coordinate(scaling * value, pos) != 0)
+        {
+          Py_DECREF(returntuple);
+          return NULL;
+        }
       }
       else
       {
@@ -5269,12 +5341,20 @@ static PyObject* chop(PyObject *self, PyObject *args)
       }
       clip[0][2].Y = clip[0][3].Y = pos;
     }
-    clpr.Clear();
-    clpr.AddPaths(subj, ptSubject, true);
-    clpr.AddPaths(clip, ptClip, true);
-    clpr.Execute(ctIntersection, solution, pftNonZero, pftNonZero);
-    result.clear();
-    tree2paths(solution, result);
+    try
+    {
+      clpr.Clear();
+      clpr.AddPaths(subj, ptSubject, true);
+      clpr.AddPaths(clip, ptClip, true);
+      clpr.Execute(ctIntersection, solution, pftNonZero, pftNonZero);
+      result.clear();
+      tree2paths(solution, result);
+    }
+    catch (...)
+    {
+      Py_DECREF(returntuple);
+      return set_exception();
+    }
     if ((resultitem = build_polygon_tuple(result, scaling)) == NULL)
     {
       Py_DECREF(returntuple);
-- 
2.43.0


From 68f7c9db1d3c4d9ad6af979ff0bda5fc8d51242e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:39 +0000
Subject: [PATCH 57/67] fix: SVG files are malformed if cell names have special
 characters

---
 gdspy/library.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 6f104ed..899ba1d 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -63,6 +63,12 @@ Globally disable add newly-created cells to the current_library.
 """
 
 
+def _svg_id(name):
+    # Identifier (already escaped) of the cell with this name
+    name = name.replace("#", "_").replace("&", "&amp;").replace("<", "&lt;")
+    return name.replace(">", "&gt;").replace('"', "&quot;")
+
+
 class Cell(object):
     """
     Collection of polygons, paths, labels and raferences to other cells.
@@ -880,7 +886,7 @@ class Cell(object):
             Additional attributes to set for the cell group.
         """
         outfile.write('<g id="')
-        outfile.write(self.name.replace("#", "_"))
+        outfile.write(_svg_id(self.name))
         outfile.write('" ')
         outfile.write(attributes)
         outfile.write(">\n")
@@ -1259,7 +1265,7 @@ class CellReference(object):
         outfile.write('<use transform="')
         outfile.write(transform)
         outfile.write('" xlink:href="#')
-        outfile.write(name.replace("#", "_"))
+        outfile.write(_svg_id(name))
         outfile.write('"/>\n')
 
     def area(self, by_spec=False):
@@ -1860,7 +1866,7 @@ class CellArray(object):
                 )
                 outfile.write(mag)
                 outfile.write('" xlink:href="#')
-                outfile.write(name.replace("#", "_"))
+                outfile.write(_svg_id(name))
                 outfile.write('"/>\n')
 
     def area(self, by_spec=False):
-- 
2.43.0


From 7d068032e4899d7d5b7ffcbb018e1dc03721b66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:10 +0000
Subject: [PATCH 58/67] fix: number of digits for SVG coordinates also rounds
 angles and magnifications

---
 gdspy/label.py   | 4 ++--
 gdspy/library.py | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/gdspy/label.py b/gdspy/label.py
index 3710c6a..c854259 100644
--- a/gdspy/label.py
+++ b/gdspy/label.py
@@ -291,7 +291,7 @@ class Label(object):
         if self.rotation is not None:
             transform += " rotate({})".format(
                 numpy.format_float_positional(
-                    -self.rotation, trim="0", precision=precision
+                    -self.rotation, trim="0"
                 )
             )
         if self.x_reflection:
@@ -299,7 +299,7 @@ class Label(object):
         if self.magnification is not None:
             transform += " scale({})".format(
                 numpy.format_float_positional(
-                    self.magnification, trim="0", precision=precision
+                    self.magnification, trim="0"
                 )
             )
         ta = ["start", "middle", "end"][self.anchor % 4]
diff --git a/gdspy/library.py b/gdspy/library.py
index 899ba1d..dc450e7 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -1251,7 +1251,7 @@ class CellReference(object):
         if self.rotation is not None:
             transform += " rotate({})".format(
                 numpy.format_float_positional(
-                    self.rotation, trim="0", precision=precision
+                    self.rotation, trim="0"
                 )
             )
         if self.x_reflection:
@@ -1259,7 +1259,7 @@ class CellReference(object):
         if self.magnification is not None:
             transform += " scale({})".format(
                 numpy.format_float_positional(
-                    self.magnification, trim="0", precision=precision
+                    self.magnification, trim="0"
                 )
             )
         outfile.write('<use transform="')
@@ -1834,7 +1834,7 @@ class CellArray(object):
         if self.rotation is not None:
             transform += " rotate({})".format(
                 numpy.format_float_positional(
-                    self.rotation, trim="0", precision=precision
+                    self.rotation, trim="0"
                 )
             )
         if self.x_reflection:
@@ -1844,7 +1844,7 @@ class CellArray(object):
             if self.magnification is None
             else " scale({})".format(
                 numpy.format_float_positional(
-                    self.magnification, trim="0", precision=precision
+                    self.magnification, trim="0"
                 )
             )
         )
-- 
2.43.0


From d88b8a247ab4431cfd518af0908e34752449f789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:15 +0000
Subject: [PATCH 59/67] fix: labels with positions other than arrays (as in
 transformed copies of cells) break references with rotations

---
 gdspy/library.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gdspy/library.py b/gdspy/library.py
index dc450e7..074d06e 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -1487,6 +1487,7 @@ class CellReference(object):
             orgn = numpy.array(self.origin)
         labels = self.ref_cell.get_labels(depth=depth, set_transform=set_transform)
         for lbl in labels:
+            lbl.position = numpy.array(lbl.position)
             if self.x_reflection:
                 lbl.position = lbl.position * xrefl
             if self.magnification is not None:
-- 
2.43.0


From 79310bc9b7b924261f8f09cd5bff090bda77b807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:26 +0000
Subject: [PATCH 60/67] fix: parallel paths change sides in clockwise arcs and
 parametric sections of Path

---
 gdspy/polygon.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index 9d25270..0377ad5 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -1487,6 +1487,9 @@ class Path(PolygonSet):
         distances = numpy.linspace(old_distance, self.distance, pieces + 1)
         angles = numpy.linspace(initial_angle, final_angle, pieces + 1)
         if (self.w != 0) or (old_w != 0):
+            # Paths are numbered from left to right, as in segments
+            if final_angle < initial_angle:
+                distances = -distances
             for jj in range(pieces):
                 for ii in range(self.n):
                     self.polygons.append(numpy.zeros((number_of_points, 2)))
@@ -1817,12 +1820,12 @@ class Path(PolygonSet):
             i1 = min(i0 + max_points, np)
             for ii in range(self.n):
                 p1 = x0[i0:i1] + dx[i0:i1] * (
-                    dist[i0:i1] * (ii - (self.n - 1) * 0.5) + width[i0:i1]
+                    dist[i0:i1] * ((self.n - 1) * 0.5 - ii) + width[i0:i1]
                 )
                 p2 = (
                     x0[i0:i1]
                     + dx[i0:i1]
-                    * (dist[i0:i1] * (ii - (self.n - 1) * 0.5) - width[i0:i1])
+                    * (dist[i0:i1] * ((self.n - 1) * 0.5 - ii) - width[i0:i1])
                 )[::-1]
                 if width[i1 - 1, 0] == 0:
                     p2 = p2[1:]
-- 
2.43.0


From 00a77120d8110a84c5c4201fa702b0dafd16bfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:01 +0000
Subject: [PATCH 61/67] fix: hiding layers in a LayoutViewer changes its
 argument and hides them in later viewers

---
 gdspy/viewer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/viewer.py b/gdspy/viewer.py
index c9bd6fa..bbb8aff 100644
--- a/gdspy/viewer.py
+++ b/gdspy/viewer.py
@@ -219,7 +219,7 @@ class LayoutViewer(tkinter.Frame):
         self.depth = tkinter.IntVar()
         self.depth.set(depth)
 
-        self.hidden_layers = hidden_types
+        self.hidden_layers = list(hidden_types)
 
         self.color = ColorDict(color.get("default", None))
         self.color.update(color)
-- 
2.43.0


From 810efcaea7420c0567ba336448f5b4b0acc66e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:28 +0000
Subject: [PATCH 62/67] fix: zoom buttons of LayoutViewer fail when nothing is
 visible

---
 gdspy/viewer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gdspy/viewer.py b/gdspy/viewer.py
index bbb8aff..3a16f2e 100644
--- a/gdspy/viewer.py
+++ b/gdspy/viewer.py
@@ -885,6 +885,8 @@ class LayoutViewer(tkinter.Frame):
         self.canvas.x_rl *= s
         self.canvas.y_rl *= s
         bb = self.canvas.bbox(tkinter.ALL)
+        if bb is None:
+            return
         w = (bb[2] - bb[0]) * 1.2
         h = (bb[3] - bb[1]) * 1.2
         bb = (bb[0] - w, bb[1] - h, bb[2] + w, bb[3] + h)
@@ -909,6 +911,8 @@ class LayoutViewer(tkinter.Frame):
         self.canvas.x_rl *= s
         self.canvas.y_rl *= s
         bb = self.canvas.bbox(tkinter.ALL)
+        if bb is None:
+            return
         w = (bb[2] - bb[0]) * 1.2
         h = (bb[3] - bb[1]) * 1.2
         bb = (bb[0] - w, bb[1] - h, bb[2] + w, bb[3] + h)
-- 
2.43.0


From cfcb7ef66f6928fc019e064a9425cd3b85a3a90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:35 +0000
Subject: [PATCH 63/67] fix: extents of LayoutViewer do not follow the depth
 shown

---
 gdspy/viewer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gdspy/viewer.py b/gdspy/viewer.py
index 3a16f2e..c1df3eb 100644
--- a/gdspy/viewer.py
+++ b/gdspy/viewer.py
@@ -402,6 +402,8 @@ class LayoutViewer(tkinter.Frame):
         if d != self.shown_depth:
             self.shown_cell = self.current_cell.get()
             self.shown_depth = d
+            # The boxes of references depend on the depth
+            self.cell_bb = dict([(s, None) for s in self.cells])
             self._update_data()
 
     def _update_canvas(self, *args):
-- 
2.43.0


From 69c4fccf340b77d26372efeefea7fc72bc314c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:20 +0000
Subject: [PATCH 64/67] fix: smooth and callable ends of FlexPaths with two
 distinct points among repeated ones

---
 gdspy/path.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index c7c2bde..9787f7d 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -415,6 +415,15 @@ class FlexPath(object):
             return {} if by_spec else []
         if self._polygon_dict is None:
             self._polygon_dict = {}
+            un = self.points[1:] - self.points[:-1]
+            un2 = un[:, 0] ** 2 + un[:, 1] ** 2
+            if not un2.all():
+                # Remove coincident points
+                nz = [0]
+                nz.extend(un2.nonzero()[0] + 1)
+                self.points = self.points[nz, :]
+                self.widths = self.widths[nz, :]
+                self.offsets = self.offsets[nz, :]
             if self.points.shape[0] == 2:
                 # Common case: single path with 2 points
                 un = self.points[1] - self.points[0]
@@ -571,14 +580,6 @@ class FlexPath(object):
                 # More than 1 path or more than 2 points
                 un = self.points[1:] - self.points[:-1]
                 un2 = un[:, 0] ** 2 + un[:, 1] ** 2
-                if not un2.all():
-                    nz = [0]
-                    nz.extend(un2.nonzero()[0] + 1)
-                    self.points = self.points[nz, :]
-                    self.widths = self.widths[nz, :]
-                    self.offsets = self.offsets[nz, :]
-                    un = self.points[1:] - self.points[:-1]
-                    un2 = un[:, 0] ** 2 + un[:, 1] ** 2
                 un = un[:, ::-1] * _mpone / (un2 ** 0.5).reshape((un.shape[0], 1))
                 for kk in range(self.n):
                     corner = self.corners[kk]
-- 
2.43.0


From d5d9c5d0d8180e1c3fb3bd55b36285c6de91ab54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:28 +0000
Subject: [PATCH 65/67] fix: numpy numbers are accepted as width and offset of
 RobustPath sections

Scalars of numpy have __getitem__, so that they were indexed as lists
(IndexError).
---
 gdspy/path.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 9787f7d..747f1d6 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -2560,7 +2560,7 @@ class RobustPath(object):
     def _parse_offset(self, arg, idx):
         if arg is None:
             return _func_const(self.offsets[idx])
-        elif hasattr(arg, "__getitem__"):
+        elif hasattr(arg, "__iter__"):
             if callable(arg[idx]):
                 return arg[idx]
             return _func_linear(self.offsets[idx], arg[idx])
@@ -2577,7 +2577,7 @@ class RobustPath(object):
                     stacklevel=3,
                 )
             return _func_const(self.widths[idx])
-        elif hasattr(arg, "__getitem__"):
+        elif hasattr(arg, "__iter__"):
             if callable(arg[idx]):
                 return arg[idx]
             return _func_linear(self.widths[idx], arg[idx])
-- 
2.43.0


From 5282876204288f5fa420471d7e7e6dd75ded567b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:50 +0000
Subject: [PATCH 66/67] fix: NaN in RobustPath sections whose derivative
 vanishes at some point

Bezier sections with coincident control points have no derivative at
their ends, so that the normal was not defined there and NaN got into
the polygons.
---
 gdspy/path.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 747f1d6..ea4e728 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -108,24 +108,29 @@ class _SubPath(object):
     def __str__(self):
         return "SubPath ({} - {})".format(self(0, 1e-6, 0), self(1, 1e-6, 0))
 
+    def _normal(self, u):
+        v = self.dx(u, self.h)
+        if v[0] == 0 and v[1] == 0:
+            # No derivative here (coincident control points, for instance):
+            # use the direction in the neighborhood
+            u0 = max(0, u - self.h)
+            u1 = min(1, u + self.h)
+            v = numpy.array(self.x(u1)) - numpy.array(self.x(u0))
+        v = v[::-1] * _pmone
+        return v / (v[0] ** 2 + v[1] ** 2) ** 0.5
+
     def __call__(self, u, arm, transform=True):
         cx = self.transform[0]
         cy = self.transform[1]
         if transform and cx[0] * cy[1] - cx[1] * cy[0] < 0:
             # Reflection swaps the sides of the path
             arm = -arm
-        v = self.dx(u, self.h)[::-1] * _pmone
-        v /= (v[0] ** 2 + v[1] ** 2) ** 0.5
-        x = self.x(u) + self.off(u) * v
+        x = self.x(u) + self.off(u) * self._normal(u)
         if arm != 0:
             u0 = max(0, u - self.h)
-            v = self.dx(u0, self.h)[::-1] * _pmone
-            v /= (v[0] ** 2 + v[1] ** 2) ** 0.5
-            x0 = self.x(u0) + self.off(u0) * v
+            x0 = self.x(u0) + self.off(u0) * self._normal(u0)
             u1 = min(1, u + self.h)
-            v = self.dx(u1, self.h)[::-1] * _pmone
-            v /= (v[0] ** 2 + v[1] ** 2) ** 0.5
-            x1 = self.x(u1) + self.off(u1) * v
+            x1 = self.x(u1) + self.off(u1) * self._normal(u1)
             w = (x1 - x0)[::-1] * _pmone
             w /= (w[0] ** 2 + w[1] ** 2) ** 0.5
             if arm < 0:
-- 
2.43.0


From 0562a2665f15c60361a7d3b75f1bc49d7acf8e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:11 +0000
Subject: [PATCH 67/67] fix: NaN in Path sections whose derivative vanishes at
 some point

Bezier sections with coincident control points at their ends gave
polygons and a direction that are not numbers.
---
 gdspy/polygon.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index 0377ad5..28a82fb 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -1770,7 +1770,14 @@ class Path(PolygonSet):
                 )
             )
         else:
-            derivs = numpy.array([curve_derivative(u) for u in points])
+            derivs = numpy.array([curve_derivative(u) for u in points], dtype=float)
+        delta = min(delta, 1e-4)
+        for i in numpy.flatnonzero((derivs == 0).all(axis=1)):
+            # No derivative here (coincident control points, for instance):
+            # use the direction in the neighborhood
+            derivs[i] = numpy.array(
+                curve_function(min(1, points[i] + delta))
+            ) - numpy.array(curve_function(max(0, points[i] - delta)))
 
         if not callable(final_width):
             if final_width is None:
-- 
2.43.0

