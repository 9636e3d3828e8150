From 726f54892b9e10245df90e2d07899b9db39b840e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:50 +0000
Subject: [PATCH 01/54] fix: path polygons are cached only when complete,
 without changing the path

A calculation that raised or was interrupted left a partial polygon
cache behind, which later calls returned as the result.  FlexPath also
dropped duplicate points from the object itself and failed for paths
left with 2 points and custom or smooth ends.
---
 gdspy/path.py | 112 ++++++++++++++++++++++++++++----------------------
 1 file changed, 62 insertions(+), 50 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 20c02f7..f366a08 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -387,6 +387,19 @@ class FlexPath(object):
                 self.points.shape[0], self.layers[0], self.datatypes[0]
             )
 
+    def _distinct_points(self):
+        """
+        Points, widths and offsets of this path without those at
+        consecutive duplicate points.
+        """
+        un = self.points[1:] - self.points[:-1]
+        un2 = un[:, 0] ** 2 + un[:, 1] ** 2
+        if un2.all():
+            return self.points, self.widths, self.offsets
+        nz = [0]
+        nz.extend(un2.nonzero()[0] + 1)
+        return self.points[nz, :], self.widths[nz, :], self.offsets[nz, :]
+
     def get_polygons(self, by_spec=False):
         """
         Calculate the polygonal boundaries described by this path.
@@ -405,26 +418,28 @@ class FlexPath(object):
             `by_spec` is True).
         """
         if self._polygon_dict is None:
-            self._polygon_dict = {}
-            if self.points.shape[0] == 2:
+            # The cache is set only after everything has been calculated
+            polygon_dict = {}
+            points, widths, offsets = self._distinct_points()
+            if points.shape[0] < 2:
+                return {} if by_spec else []
+            if points.shape[0] == 2:
                 # Common case: single path with 2 points
-                un = self.points[1] - self.points[0]
-                if un[0] == 0 and un[1] == 0:
-                    return {} if by_spec else []
+                un = points[1] - points[0]
                 un = un[::-1] * _mpone / (un[0] ** 2 + un[1] ** 2) ** 0.5
                 for kk in range(self.n):
                     end = self.ends[kk]
                     pts = numpy.array(
                         (
-                            self.points[0] + un * self.offsets[0, kk],
-                            self.points[1] + un * self.offsets[1, kk],
+                            points[0] + un * offsets[0, kk],
+                            points[1] + un * offsets[1, kk],
                         )
                     )
                     vn = pts[1] - pts[0]
                     vn = vn[::-1] * _mpone / (vn[0] ** 2 + vn[1] ** 2) ** 0.5
                     v = (
-                        vn * (0.5 * self.widths[0, kk]),
-                        vn * (0.5 * self.widths[1, kk]),
+                        vn * (0.5 * widths[0, kk]),
+                        vn * (0.5 * widths[1, kk]),
                     )
                     poly = numpy.array(
                         (pts[0] - v[0], pts[0] + v[0], pts[1] + v[1], pts[1] - v[1])
@@ -480,7 +495,7 @@ class FlexPath(object):
                             poly = numpy.array(cap)
                         elif end == "round":
                             v = pts[1] - pts[0]
-                            r = 0.5 * self.widths[0, kk]
+                            r = 0.5 * widths[0, kk]
                             np = max(
                                 5,
                                 1
@@ -495,7 +510,7 @@ class FlexPath(object):
                                 pts[0]
                                 + r * numpy.vstack((numpy.cos(ang), numpy.sin(ang))).T
                             )
-                            r = 0.5 * self.widths[1, kk]
+                            r = 0.5 * widths[1, kk]
                             np = max(
                                 5,
                                 1
@@ -518,12 +533,12 @@ class FlexPath(object):
                             v = pts[1] - pts[0]
                             v /= (v[0] ** 2 + v[1] ** 2) ** 0.5
                             if end == "extended":
-                                v0 = 0.5 * self.widths[0, kk] * v
-                                v1 = 0.5 * self.widths[1, kk] * v
+                                v0 = 0.5 * widths[0, kk] * v
+                                v1 = 0.5 * widths[1, kk] * v
                             else:
                                 v0 = end[0] * v
                                 v1 = end[1] * v
-                            if self.widths[0, kk] == self.widths[1, kk]:
+                            if widths[0, kk] == widths[1, kk]:
                                 poly[0] -= v0
                                 poly[1] -= v0
                                 poly[2] += v1
@@ -575,30 +590,22 @@ class FlexPath(object):
                             else:
                                 ii += 1
                     key = (self.layers[kk], self.datatypes[kk])
-                    if key in self._polygon_dict:
-                        self._polygon_dict[key].extend(polygons)
+                    if key in polygon_dict:
+                        polygon_dict[key].extend(polygons)
                     else:
-                        self._polygon_dict[key] = polygons
+                        polygon_dict[key] = polygons
             else:
                 # More than 1 path or more than 2 points
-                un = self.points[1:] - self.points[:-1]
+                un = points[1:] - points[:-1]
                 un2 = un[:, 0] ** 2 + un[:, 1] ** 2
-                if not un2.all():
-                    nz = [0]
-                    nz.extend(un2.nonzero()[0] + 1)
-                    self.points = self.points[nz, :]
-                    self.widths = self.widths[nz, :]
-                    self.offsets = self.offsets[nz, :]
-                    un = self.points[1:] - self.points[:-1]
-                    un2 = un[:, 0] ** 2 + un[:, 1] ** 2
                 un = un[:, ::-1] * _mpone / (un2 ** 0.5).reshape((un.shape[0], 1))
                 for kk in range(self.n):
                     corner = self.corners[kk]
                     end = self.ends[kk]
-                    if any(self.offsets[:, kk] != 0):
-                        pts = numpy.empty(self.points.shape)
-                        sa = self.points[:-1] + un * self.offsets[:-1, kk : kk + 1]
-                        sb = self.points[1:] + un * self.offsets[1:, kk : kk + 1]
+                    if any(offsets[:, kk] != 0):
+                        pts = numpy.empty(points.shape)
+                        sa = points[:-1] + un * offsets[:-1, kk : kk + 1]
+                        sb = points[1:] + un * offsets[1:, kk : kk + 1]
                         vn = sb - sa
                         den = vn[1:, 0] * vn[:-1, 1] - vn[1:, 1] * vn[:-1, 0]
                         idx = numpy.nonzero(
@@ -623,7 +630,7 @@ class FlexPath(object):
                         pts[0] = sa[0]
                         pts[-1] = sb[-1]
                     else:
-                        pts = self.points
+                        pts = points
                     vn = pts[1:] - pts[:-1]
                     vn = (
                         vn[:, ::-1]
@@ -637,18 +644,18 @@ class FlexPath(object):
                     for ii in (0, 1):
                         sign = -1 if ii == 0 else 1
                         pa = pts[:-1] + vn * (
-                            sign * 0.5 * self.widths[:-1, kk : kk + 1]
+                            sign * 0.5 * widths[:-1, kk : kk + 1]
                         )
-                        pb = pts[1:] + vn * (sign * 0.5 * self.widths[1:, kk : kk + 1])
+                        pb = pts[1:] + vn * (sign * 0.5 * widths[1:, kk : kk + 1])
                         vec = pb - pa
                         caps[0].append(pa[0])
                         caps[1].append(pb[-1])
-                        for jj in range(1, self.points.shape[0] - 1):
+                        for jj in range(1, points.shape[0] - 1):
                             p0 = pb[jj - 1]
                             v0 = vec[jj - 1]
                             p1 = pa[jj]
                             v1 = vec[jj]
-                            half_w = 0.5 * self.widths[jj, kk]
+                            half_w = 0.5 * widths[jj, kk]
                             if corner == "natural":
                                 v0 = v0 * (half_w / (v0[0] ** 2 + v0[1] ** 2) ** 0.5)
                                 v1 = v1 * (half_w / (v1[0] ** 2 + v1[1] ** 2) ** 0.5)
@@ -709,16 +716,16 @@ class FlexPath(object):
                                         ),
                                     )
                                     angles = numpy.linspace(a0, a1, np)
-                                    points = (
+                                    arc = (
                                         r
                                         * numpy.vstack(
                                             (numpy.cos(angles), numpy.sin(angles))
                                         ).T
                                     )
-                                    arms[ii].extend(points - points[0] + p0 - d * v0)
+                                    arms[ii].extend(arc - arc[0] + p0 - d * v0)
                             elif callable(corner):
                                 arms[ii].extend(
-                                    corner(p0, v0, p1, v1, pts[jj], self.widths[jj, kk])
+                                    corner(p0, v0, p1, v1, pts[jj], widths[jj, kk])
                                 )
                             else:
                                 den = v1[1] * v0[0] - v1[0] * v0[1]
@@ -810,7 +817,7 @@ class FlexPath(object):
                                     caps[ii][0], vecs[0], caps[ii][1], vecs[1]
                                 )
                             elif end == "smooth":
-                                points = numpy.array(caps[ii])
+                                bezpts = numpy.array(caps[ii])
                                 vecs = [
                                     caps[ii][0] - arms[0][-ii],
                                     arms[1][-ii] - caps[ii][1],
@@ -819,9 +826,11 @@ class FlexPath(object):
                                     numpy.arctan2(vecs[0][1], vecs[0][0]),
                                     numpy.arctan2(vecs[1][1], vecs[1][0]),
                                 ]
-                                cta, ctb = _hobby(points, angles)
+                                cta, ctb = _hobby(bezpts, angles)
                                 f = _func_bezier(
-                                    numpy.array([points[0], cta[0], ctb[0], points[1]])
+                                    numpy.array(
+                                        [bezpts[0], cta[0], ctb[0], bezpts[1]]
+                                    )
                                 )
                                 tol = self.tolerance ** 2
                                 uu = [0, 1]
@@ -839,7 +848,7 @@ class FlexPath(object):
                                 caps[ii] = fu
                             elif end == "round":
                                 v = pts[0] - pts[1] if ii == 0 else pts[-1] - pts[-2]
-                                r = 0.5 * self.widths[-ii, kk]
+                                r = 0.5 * widths[-ii, kk]
                                 np = max(
                                     5,
                                     1
@@ -860,7 +869,7 @@ class FlexPath(object):
                                 v = pts[0] - pts[1] if ii == 0 else pts[-1] - pts[-2]
                                 v = v / (v[0] ** 2 + v[1] ** 2) ** 0.5
                                 w = (2 * ii - 1) * v[::-1] * _pmone
-                                r = 0.5 * self.widths[-ii, kk]
+                                r = 0.5 * widths[-ii, kk]
                                 d = r if end == "extended" else end[ii]
                                 caps[ii] = [
                                     pts[-ii] + r * w,
@@ -906,10 +915,11 @@ class FlexPath(object):
                             else:
                                 ii += 1
                     key = (self.layers[kk], self.datatypes[kk])
-                    if key in self._polygon_dict:
-                        self._polygon_dict[key].extend(polygons)
+                    if key in polygon_dict:
+                        polygon_dict[key].extend(polygons)
                     else:
-                        self._polygon_dict[key] = polygons
+                        polygon_dict[key] = polygons
+            self._polygon_dict = polygon_dict
         if by_spec:
             return libcopy.deepcopy(self._polygon_dict)
         else:
@@ -1982,7 +1992,8 @@ class RobustPath(object):
             `by_spec` is True).
         """
         if self._polygon_dict is None:
-            self._polygon_dict = {}
+            # The cache is set only after everything has been calculated
+            polygon_dict = {}
             for path, end, layer, datatype in zip(
                 self.paths, self.ends, self.layers, self.datatypes
             ):
@@ -2156,10 +2167,11 @@ class RobustPath(object):
                         else:
                             ii += 1
                 key = (layer, datatype)
-                if key in self._polygon_dict:
-                    self._polygon_dict[key].extend(polygons)
+                if key in polygon_dict:
+                    polygon_dict[key].extend(polygons)
                 else:
-                    self._polygon_dict[key] = polygons
+                    polygon_dict[key] = polygons
+            self._polygon_dict = polygon_dict
         if by_spec:
             return libcopy.deepcopy(self._polygon_dict)
         else:
-- 
2.43.0


From 907ab3b19873df5e320b52394bbdd9fbc2a972e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:50 +0000
Subject: [PATCH 02/54] fix: FlexPath.to_gds does not modify the path nor fail
 if it has no area

---
 gdspy/path.py | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index f366a08..31efd69 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -972,18 +972,13 @@ class FlexPath(object):
         if self.gdsii_path:
             sign = 1 if self.width_transform else -1
         else:
-            self.to_polygonset().to_gds(outfile, multiplier)
+            polygonset = self.to_polygonset()
+            if polygonset is not None:
+                polygonset.to_gds(outfile, multiplier)
             return
-        un = self.points[1:] - self.points[:-1]
+        spine, widths, offsets = self._distinct_points()
+        un = spine[1:] - spine[:-1]
         un2 = un[:, 0] ** 2 + un[:, 1] ** 2
-        if not un2.all():
-            nz = [0]
-            nz.extend(un2.nonzero()[0] + 1)
-            self.points = self.points[nz, :]
-            self.widths = self.widths[nz, :]
-            self.offsets = self.offsets[nz, :]
-            un = self.points[1:] - self.points[:-1]
-            un2 = un[:, 0] ** 2 + un[:, 1] ** 2
         un = un[:, ::-1] * _mpone / (un2 ** 0.5).reshape((un.shape[0], 1))
         for ii in range(self.n):
             pathtype = (
@@ -1007,7 +1002,7 @@ class FlexPath(object):
                     pathtype,
                     8,
                     0x0F03,
-                    sign * int(round(self.widths[0, ii] * multiplier)),
+                    sign * int(round(widths[0, ii] * multiplier)),
                 )
             )
             if pathtype == 4:
@@ -1022,10 +1017,10 @@ class FlexPath(object):
                         int(round(self.ends[ii][1] * multiplier)),
                     )
                 )
-            if any(self.offsets[:, ii] != 0):
-                points = numpy.zeros(self.points.shape)
-                sa = self.points[:-1] + un * self.offsets[:-1, ii : ii + 1]
-                sb = self.points[1:] + un * self.offsets[1:, ii : ii + 1]
+            if any(offsets[:, ii] != 0):
+                points = numpy.zeros(spine.shape)
+                sa = spine[:-1] + un * offsets[:-1, ii : ii + 1]
+                sb = spine[1:] + un * offsets[1:, ii : ii + 1]
                 vn = sb - sa
                 den = vn[1:, 0] * vn[:-1, 1] - vn[1:, 1] * vn[:-1, 0]
                 idx = numpy.nonzero(
@@ -1046,7 +1041,7 @@ class FlexPath(object):
                 points[0] = sa[0]
                 points[-1] = sb[-1]
             else:
-                points = self.points
+                points = spine
             if self.corners[ii] == "circular bend":
                 r = self.bend_radius[ii]
                 p0 = points[0]
@@ -1079,7 +1074,7 @@ class FlexPath(object):
                             + int(
                                 da
                                 / numpy.arccos(
-                                    1 - self.tolerance / (r + 0.5 * self.widths[0, ii])
+                                    1 - self.tolerance / (r + 0.5 * widths[0, ii])
                                 )
                                 + 0.5
                             ),
-- 
2.43.0


From bf650f1af0a3c7aba2944ed0474fa813206b7b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:50 +0000
Subject: [PATCH 03/54] fix: path get_polygons returns copies of the cached
 polygons

---
 gdspy/path.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 31efd69..78f2214 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -923,7 +923,12 @@ class FlexPath(object):
         if by_spec:
             return libcopy.deepcopy(self._polygon_dict)
         else:
-            return list(itertools.chain.from_iterable(self._polygon_dict.values()))
+            return [
+                polygon.copy()
+                for polygon in itertools.chain.from_iterable(
+                    self._polygon_dict.values()
+                )
+            ]
 
     def to_polygonset(self):
         """
@@ -2170,7 +2175,12 @@ class RobustPath(object):
         if by_spec:
             return libcopy.deepcopy(self._polygon_dict)
         else:
-            return list(itertools.chain.from_iterable(self._polygon_dict.values()))
+            return [
+                polygon.copy()
+                for polygon in itertools.chain.from_iterable(
+                    self._polygon_dict.values()
+                )
+            ]
 
     def to_polygonset(self):
         """
-- 
2.43.0


From 68420decd99e94de67e227ea783904cc92569ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:25 +0000
Subject: [PATCH 04/54] fix: Cell.get_texttypes fails for cells with references

---
 gdspy/library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index ad0b83a..658699a 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -518,7 +518,7 @@ class Cell(object):
         """
         texttypes = set()
         for reference in self.references:
-            texttypes.update(reference.ref_cell.get_textypes())
+            texttypes.update(reference.ref_cell.get_texttypes())
         for label in self.labels:
             texttypes.add(label.texttype)
         return texttypes
-- 
2.43.0


From 6567079452378d75af4d6e7530903aa70efcb459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:25 +0000
Subject: [PATCH 05/54] fix: cell filters keep polygon lists and change nothing
 if the test fails

---
 gdspy/library.py | 35 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 658699a..7f211d1 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -371,15 +371,17 @@ class Cell(object):
         for element in self.polygons:
             pld = [(poly, l, dt) for poly, l, dt in zip(element.polygons, element.layers, element.datatypes)
                    if not test(poly, l, dt)]
-            if len(pld) == 0:
-                pass  # we don't need no empty polygons!
-            else:
-                polys, layers, dts = zip(*pld)
-                element.polygons = polys
-                element.layers = layers
-                element.datatypes = dts
-                filtered_polys.append(element)
-        self.polygons = filtered_polys
+            # we don't need no empty polygons!
+            if len(pld) > 0:
+                filtered_polys.append((element, pld))
+        # Nothing is changed before all tests have been completed
+        for element, pld in filtered_polys:
+            polys, layers, dts = zip(*pld)
+            element.polygons = list(polys)
+            element.layers = list(layers)
+            element.datatypes = list(dts)
+        self.polygons = [element for element, _ in filtered_polys]
+        self._bb_valid = False
         return self
 
     def remove_paths(self, test):
@@ -401,12 +403,8 @@ class Cell(object):
         out : `Cell`
             This cell.
         """
-        ii = 0
-        while ii < len(self.paths):
-            if test(self.paths[ii]):
-                self.paths.pop(ii)
-            else:
-                ii += 1
+        self.paths[:] = [path for path in self.paths if not test(path)]
+        self._bb_valid = False
         return self
 
     def remove_labels(self, test):
@@ -434,12 +432,7 @@ class Cell(object):
 
         >>> cell.remove_labels(lambda lbl: lbl.layer == 1)
         """
-        ii = 0
-        while ii < len(self.labels):
-            if test(self.labels[ii]):
-                self.labels.pop(ii)
-            else:
-                ii += 1
+        self.labels[:] = [label for label in self.labels if not test(label)]
         return self
 
     def area(self, by_spec=False):
-- 
2.43.0


From 1400ca5911095ac2302c07395026a03fa8ceb747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:25 +0000
Subject: [PATCH 06/54] fix: bounding boxes reflect changes to elements and
 nested cells

---
 gdspy/library.py | 66 +++++++++++++++++++++++++++++++++---------------
 1 file changed, 46 insertions(+), 20 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 7f211d1..89ac333 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -551,35 +551,55 @@ class Cell(object):
             Bounding box of this cell [[x_min, y_min], [x_max, y_max]],
             or None if the cell is empty.
         """
-        deps_still_valid = all(ref._bb_valid for ref in self.get_dependencies(True))
-        cached_bbox_still_valid = self._bb_valid and deps_still_valid
-        if not cached_bbox_still_valid:
-            bb = numpy.array(((1e300, 1e300), (-1e300, -1e300)))
+        return self._calculate_bounding_box({})
+
+    def _calculate_bounding_box(self, boxes):
+        """
+        Calculate the bounding box for this cell.
+
+        Elements and referenced cells can be changed at any time, so
+        bounding boxes are only reused within a single query.
+
+        Parameters
+        ----------
+        boxes : dictionary
+            Bounding boxes of the cells already calculated in this
+            query.
+
+        Returns
+        -------
+        out : Numpy array[2, 2] or None
+            Bounding box of this cell [[x_min, y_min], [x_max, y_max]],
+            or None if the cell is empty.
+        """
+        if self not in boxes:
             all_polygons = []
             for polygon in self.polygons:
                 all_polygons.extend(polygon.polygons)
             for path in self.paths:
-                all_polygons.extend(path.to_polygonset().polygons)
+                polygonset = path.to_polygonset()
+                if polygonset is not None:
+                    all_polygons.extend(polygonset.polygons)
             for reference in self.references:
-                reference_bb = reference.get_bounding_box()
+                reference_bb = reference._calculate_bounding_box(boxes)
                 if reference_bb is not None:
                     all_polygons.append(reference_bb)
             if len(all_polygons) > 0:
                 all_points = numpy.concatenate(all_polygons).transpose()
-                bb[0, 0] = min(bb[0, 0], all_points[0].min())
-                bb[0, 1] = min(bb[0, 1], all_points[1].min())
-                bb[1, 0] = max(bb[1, 0], all_points[0].max())
-                bb[1, 1] = max(bb[1, 1], all_points[1].max())
-                self._bounding_box = bb
+                boxes[self] = numpy.array(
+                    (
+                        (all_points[0].min(), all_points[1].min()),
+                        (all_points[0].max(), all_points[1].max()),
+                    ),
+                    dtype=float,
+                )
             else:
-                self._bounding_box = None
+                boxes[self] = None
+            self._bounding_box = boxes[self]
             self._bb_valid = True
-
-        if self._bounding_box is None:
-            return None
-        else:
-            # return a *copy* of the cached bounding box to ensure it doesn't get inadvertently modified
-            return numpy.array(self._bounding_box)
+        bb = boxes[self]
+        # return a *copy* of the bounding box to ensure it doesn't get inadvertently modified
+        return None if bb is None else numpy.array(bb)
 
     def get_polygons(self, by_spec=False, depth=None):
         """
@@ -1496,11 +1516,14 @@ class CellReference(object):
             Bounding box of this cell [[x_min, y_min], [x_max, y_max]],
             or None if the cell is empty.
         """
+        return self._calculate_bounding_box({})
+
+    def _calculate_bounding_box(self, boxes):
         if not isinstance(self.ref_cell, Cell):
             return None
 
         if self.rotation is None or self.rotation % 90 == 0:
-            cell_bbox = self.ref_cell.get_bounding_box()
+            cell_bbox = self.ref_cell._calculate_bounding_box(boxes)
             if cell_bbox is None:
                 return None
             polygons = self._transform_polygons([cell_bbox])
@@ -2130,10 +2153,13 @@ class CellArray(object):
             Bounding box of this cell [[x_min, y_min], [x_max, y_max]],
             or None if the cell is empty.
         """
+        return self._calculate_bounding_box({})
+
+    def _calculate_bounding_box(self, boxes):
         if not isinstance(self.ref_cell, Cell):
             return None
         if self.rotation is None or self.rotation % 90 == 0:
-            cell_bbox = self.ref_cell.get_bounding_box()
+            cell_bbox = self.ref_cell._calculate_bounding_box(boxes)
             if cell_bbox is None:
                 return None
             polygons = self._transform_polygons([cell_bbox])
-- 
2.43.0


From 29e404da124dd6891fcab4588342aa75b98ac348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:25 +0000
Subject: [PATCH 07/54] fix: Cell.flatten updates calculated path polygons and
 keeps texttypes

---
 gdspy/library.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 89ac333..94f2df2 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -833,19 +833,22 @@ class Cell(object):
         out : `Cell`
             This cell.
         """
-        self.labels = self.get_labels()
-        if single_layer is not None and single_datatype is not None:
-            for lbl in self.labels:
-                lbl.layer = single_layer
-                lbl.texttype = single_texttype
-        elif single_layer is not None:
+        labels = self.get_labels()
+        polygons = self.get_polygonsets()
+        paths = self.get_paths()
+        self.labels = labels
+        self.polygons = polygons
+        self.paths = paths
+        self._bb_valid = False
+        if single_layer is not None:
             for lbl in self.labels:
                 lbl.layer = single_layer
-        elif single_datatype is not None:
+        if single_texttype is not None:
             for lbl in self.labels:
                 lbl.texttype = single_texttype
-        self.polygons = self.get_polygonsets()
-        self.paths = self.get_paths()
+        for path in self.paths:
+            # The calculated polygons are stored by layer and datatype
+            path._polygon_dict = None
         if single_layer is not None and single_datatype is not None:
             for poly in self.polygons:
                 poly.layers = [single_layer] * len(poly.polygons)
-- 
2.43.0


From 7a1f35c555f267516f1850ed6d6bf7223da9944d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:12 +0000
Subject: [PATCH 08/54] fix: incomplete strings are not read from truncated
 files, and empty ones are not None

---
 gdspy/gdsiiformat.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gdspy/gdsiiformat.py b/gdspy/gdsiiformat.py
index 3747391..4d7bf83 100644
--- a/gdspy/gdsiiformat.py
+++ b/gdspy/gdsiiformat.py
@@ -59,7 +59,7 @@ def _record_reader(stream):
         size, rec_type = struct.unpack(">HH", header)
         data_type = rec_type & 0x00FF
         rec_type = rec_type // 256
-        data = None
+        data = "" if data_type == 0x06 else None
         if size > 4:
             if data_type == 0x01:
                 data = numpy.array(
@@ -91,6 +91,8 @@ def _record_reader(stream):
                 )
             else:
                 data = stream.read(size - 4)
+                if len(data) < size - 4:
+                    raise ValueError("[GDSPY] Incomplete record in GDSII file.")
                 if str is not bytes:
                     if data[-1] == 0:
                         data = data[:-1].decode("ascii")
-- 
2.43.0


From d749207216f6f5dda14b0ff6b8b06c1450317fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:12 +0000
Subject: [PATCH 09/54] fix: zero padding does not prevent reading units and
 binary cells

---
 gdspy/gdsiiformat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/gdsiiformat.py b/gdspy/gdsiiformat.py
index 4d7bf83..f19d051 100644
--- a/gdspy/gdsiiformat.py
+++ b/gdspy/gdsiiformat.py
@@ -123,7 +123,7 @@ def _raw_record_reader(stream):
             return
         size, rec_type = struct.unpack(">HH", header)
         rec_type = rec_type // 256
-        yield (rec_type, header + stream.read(size - 4))
+        yield (rec_type, header + stream.read(max(0, size - 4)))
 
 
 def _eight_byte_real(value):
-- 
2.43.0


From 45adedaba7a078c001e3babfddeb772f2863da85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:12 +0000
Subject: [PATCH 10/54] fix: gdsii_hash ends for zero-length structure records

---
 gdspy/gdsiiformat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gdspy/gdsiiformat.py b/gdspy/gdsiiformat.py
index f19d051..f8ec4f7 100644
--- a/gdspy/gdsiiformat.py
+++ b/gdspy/gdsiiformat.py
@@ -213,9 +213,9 @@ def gdsii_hash(filename, engine=None):
     start = pos = 0
     while pos < len(data):
         size, rec = struct.unpack(">HH", data[pos : pos + 4])
-        if rec == 0x0502:
+        if size > 0 and rec == 0x0502:
             start = pos + 28
-        elif rec == 0x0700:
+        elif size > 0 and rec == 0x0700:
             contents.append(data[start:pos])
         elif size == 0:
             warnings.warn(
-- 
2.43.0


From 11715f8f9badf2d1bb6ba746ddd4a1fa47a42ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:12 +0000
Subject: [PATCH 11/54] fix: set_gdsii_timestamp does not extend truncated
 files

---
 gdspy/gdsiiformat.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gdspy/gdsiiformat.py b/gdspy/gdsiiformat.py
index f8ec4f7..9408d0c 100644
--- a/gdspy/gdsiiformat.py
+++ b/gdspy/gdsiiformat.py
@@ -284,6 +284,10 @@ def set_gdsii_timestamp(filename, timestamp):
             size, rec_type = struct.unpack(">HH", data)
             if rec_type == 0x0102 or rec_type == 0x0502:
                 assert size == 28
+                if len(fio.read(24)) < 24:
+                    warnings.warn("Possibly corrupted file", stacklevel=2)
+                    return
+                fio.seek(-24, 1)
                 fio.write(ts)
             elif size > 4:
                 fio.seek(size - 4, 1)
-- 
2.43.0


From 1ed50295060d2ced54d77446ad48b476ab11aaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:44 +0000
Subject: [PATCH 12/54] fix: unsupported elements and records do not affect the
 remaining ones when importing

---
 gdspy/library.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 94f2df2..5fe8083 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -2626,10 +2626,10 @@ class GdsLibrary(object):
                     el = create_element(**kwargs)
                     if len(properties) > 0:
                         el.properties = properties
-                        properties = {}
                     cell.add(el)
                     create_element = None
                 kwargs = {}
+                properties = {}
             # BOUNDARY
             elif record[0] == 0x08:
                 create_element = self._create_polygon
@@ -2747,7 +2747,10 @@ class GdsLibrary(object):
             ):
                 warnings.warn(
                     "[GDSPY] Record type {0} ({1:02X}) is not supported.".format(
-                        GdsLibrary._record_name[record[0]], record[0]
+                        GdsLibrary._record_name[record[0]]
+                        if record[0] < len(GdsLibrary._record_name)
+                        else "unknown",
+                        record[0],
                     ),
                     stacklevel=2,
                 )
-- 
2.43.0


From f436f36753fbe78207a2b56421ef48adaf0ad9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:08 +0000
Subject: [PATCH 13/54] fix: order of cells does not depend on addresses and a
 rejected add has no effect

---
 gdspy/library.py | 57 ++++++++++++++++++++++++++++++++++--------------
 1 file changed, 41 insertions(+), 16 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 5fe8083..b742dd4 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -44,6 +44,7 @@ import itertools
 import colorsys
 import warnings
 import copy as libcopy
+from collections import OrderedDict
 
 from gdspy.polygon import PolygonSet, Polygon
 from gdspy.path import FlexPath, RobustPath
@@ -812,6 +813,26 @@ class Cell(object):
                 dependencies.add(reference.ref_cell)
         return dependencies
 
+    def _add_dependencies(self, dependencies, visited):
+        """
+        Insert the cells included in this cell as references, recursively,
+        in a dictionary, following the order of the references.
+
+        Parameters
+        ----------
+        dependencies : dictionary
+            Dictionary where the cells are inserted as keys.
+        visited : set
+            Cells which dependencies have already been inserted.
+        """
+        if self in visited:
+            return
+        visited.add(self)
+        for reference in self.references:
+            if isinstance(reference.ref_cell, Cell):
+                reference.ref_cell._add_dependencies(dependencies, visited)
+                dependencies[reference.ref_cell] = None
+
     def flatten(self, single_layer=None, single_datatype=None, single_texttype=None):
         """
         Convert all references into polygons, paths and labels.
@@ -1040,7 +1061,9 @@ class Cell(object):
             outfile.write(" ".join("{}: {};".format(*x) for x in style_dict.items()))
             outfile.write("}\n")
         outfile.write("</style>\n")
-        for cell in self.get_dependencies(True):
+        dependencies = OrderedDict()
+        self._add_dependencies(dependencies, set())
+        for cell in dependencies:
             cell.to_svg(outfile, scaling, precision, "")
         outfile.write("</defs>\n")
         if background is not None:
@@ -2378,24 +2401,26 @@ class GdsLibrary(object):
         out : `GdsLibrary`
             This object.
         """
-        if isinstance(cell, Cell):
-            cell_set = set([cell])
-            if include_dependencies:
-                cell_set.update(cell.get_dependencies(True))
-        else:
-            cell_set = set(cell)
-            if include_dependencies:
-                for c in cell:
-                    cell_set.update(c.get_dependencies(True))
-        for c in cell_set:
+        # Dictionaries are used as ordered sets, so that the order of the
+        # cells in the library is well defined.
+        cells = OrderedDict(
+            (c, None) for c in ([cell] if isinstance(cell, Cell) else cell)
+        )
+        if include_dependencies:
+            for c in list(cells):
+                c._add_dependencies(cells, set())
+        # All cells are verified before the library is changed
+        names = {}
+        for c in cells:
             if (
                 not overwrite_duplicate
-                and c.name in self.cells
-                and self.cells[c.name] is not c
+                and names.setdefault(c.name, self.cells.get(c.name, c)) is not c
             ):
                 raise ValueError(
                     "[GDSPY] Cell named {0} already present in library.".format(c.name)
                 )
+            names[c.name] = c
+        for c in cells:
             if (
                 overwrite_duplicate
                 and update_references
@@ -2823,10 +2848,10 @@ class GdsLibrary(object):
         out : list
             List of top level cells.
         """
-        top = set(self)
+        dependencies = set()
         for cell in self:
-            top.difference_update(cell.get_dependencies())
-        return list(top)
+            dependencies.update(cell.get_dependencies())
+        return [cell for cell in self if cell not in dependencies]
 
     def rename_cell(self, cell, name, update_references=True):
         """
-- 
2.43.0


From 9c5276f24680099f00b60c227580d16a1aa1c8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:35 +0000
Subject: [PATCH 14/54] fix: files opened from a path are closed when reading
 or writing fails

---
 gdspy/library.py | 735 ++++++++++++++++++++++++-----------------------
 1 file changed, 376 insertions(+), 359 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index b742dd4..817346e 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -987,99 +987,101 @@ class Cell(object):
             outfile = open(outfile, "w")
         else:
             close = False
-        if style is None:
-            style = {}
-        if fontstyle is None:
-            fontstyle = {}
-        bb *= scaling
-        x = bb[0, 0]
-        y = -bb[1, 1]
-        w = bb[1, 0] - bb[0, 0]
-        h = bb[1, 1] - bb[0, 1]
-        if background is not None:
-            if isinstance(pad, basestring):
-                if pad[-1] == "%":
-                    pad = max(w, h) * float(pad[:-1]) / 100
-                else:
-                    pad = float(pad)
-            x -= pad
-            y -= pad
-            w += 2 * pad
-            h += 2 * pad
-        outfile.write(
-            """<?xml version="1.0" encoding="UTF-8"?>
+        try:
+            if style is None:
+                style = {}
+            if fontstyle is None:
+                fontstyle = {}
+            bb *= scaling
+            x = bb[0, 0]
+            y = -bb[1, 1]
+            w = bb[1, 0] - bb[0, 0]
+            h = bb[1, 1] - bb[0, 1]
+            if background is not None:
+                if isinstance(pad, basestring):
+                    if pad[-1] == "%":
+                        pad = max(w, h) * float(pad[:-1]) / 100
+                    else:
+                        pad = float(pad)
+                x -= pad
+                y -= pad
+                w += 2 * pad
+                h += 2 * pad
+            outfile.write(
+                """<?xml version="1.0" encoding="UTF-8"?>
 <svg xmlns="http://www.w3.org/2000/svg" xmlns:xlink="http://www.w3.org/1999/xlink"
      width="{}" height="{}" viewBox="{} {} {} {}">
 <defs>
 <style type="text/css">
 """.format(
-                numpy.format_float_positional(w, trim="0", precision=precision),
-                numpy.format_float_positional(h, trim="0", precision=precision),
-                numpy.format_float_positional(x, trim="0", precision=precision),
-                numpy.format_float_positional(y, trim="0", precision=precision),
-                numpy.format_float_positional(w, trim="0", precision=precision),
-                numpy.format_float_positional(h, trim="0", precision=precision),
-            )
-        )
-        ldkeys, ltkeys = self.get_svg_classes()
-        for k in ldkeys:
-            l, d = k
-            if k in style:
-                style_dict = style[k]
-            else:
-                c = "rgb({}, {}, {})".format(
-                    *[
-                        int(255 * c + 0.5)
-                        for c in colorsys.hsv_to_rgb(
-                            (l % 3) / 3.0 + (l % 6 // 3) / 6.0 + (l // 6) / 11.0,
-                            1 - ((l + d) % 8) / 12.0,
-                            1 - (d % 3) / 4.0,
-                        )
-                    ]
-                )
-                style_dict = {"stroke": c, "fill": c, "fill-opacity": "0.5"}
-            outfile.write(".l{}d{} {{".format(l, d))
-            outfile.write(" ".join("{}: {};".format(*x) for x in style_dict.items()))
-            outfile.write("}\n")
-        for k in ltkeys:
-            l, t = k
-            if k in fontstyle:
-                style_dict = fontstyle[k]
-            else:
-                c = "rgb({}, {}, {})".format(
-                    *[
-                        int(255 * c + 0.5)
-                        for c in colorsys.hsv_to_rgb(
-                            (l % 3) / 3.0 + (l % 6 // 3) / 6.0 + (l // 6) / 11.0,
-                            1 - ((l + t) % 8) / 12.0,
-                            1 - (t % 3) / 4.0,
-                        )
-                    ]
-                )
-                style_dict = {"stroke": "none", "fill": c}
-            outfile.write(".l{}t{} {{".format(l, t))
-            outfile.write(" ".join("{}: {};".format(*x) for x in style_dict.items()))
-            outfile.write("}\n")
-        outfile.write("</style>\n")
-        dependencies = OrderedDict()
-        self._add_dependencies(dependencies, set())
-        for cell in dependencies:
-            cell.to_svg(outfile, scaling, precision, "")
-        outfile.write("</defs>\n")
-        if background is not None:
-            outfile.write(
-                '<rect x="{}" y="{}" width="{}" height="{}" fill="{}" stroke="none"/>\n'.format(
+                    numpy.format_float_positional(w, trim="0", precision=precision),
+                    numpy.format_float_positional(h, trim="0", precision=precision),
                     numpy.format_float_positional(x, trim="0", precision=precision),
                     numpy.format_float_positional(y, trim="0", precision=precision),
                     numpy.format_float_positional(w, trim="0", precision=precision),
                     numpy.format_float_positional(h, trim="0", precision=precision),
-                    background,
                 )
             )
-        self.to_svg(outfile, scaling, precision, 'transform="scale(1 -1)"')
-        outfile.write("</svg>")
-        if close:
-            outfile.close()
+            ldkeys, ltkeys = self.get_svg_classes()
+            for k in ldkeys:
+                l, d = k
+                if k in style:
+                    style_dict = style[k]
+                else:
+                    c = "rgb({}, {}, {})".format(
+                        *[
+                            int(255 * c + 0.5)
+                            for c in colorsys.hsv_to_rgb(
+                                (l % 3) / 3.0 + (l % 6 // 3) / 6.0 + (l // 6) / 11.0,
+                                1 - ((l + d) % 8) / 12.0,
+                                1 - (d % 3) / 4.0,
+                            )
+                        ]
+                    )
+                    style_dict = {"stroke": c, "fill": c, "fill-opacity": "0.5"}
+                outfile.write(".l{}d{} {{".format(l, d))
+                outfile.write(" ".join("{}: {};".format(*x) for x in style_dict.items()))
+                outfile.write("}\n")
+            for k in ltkeys:
+                l, t = k
+                if k in fontstyle:
+                    style_dict = fontstyle[k]
+                else:
+                    c = "rgb({}, {}, {})".format(
+                        *[
+                            int(255 * c + 0.5)
+                            for c in colorsys.hsv_to_rgb(
+                                (l % 3) / 3.0 + (l % 6 // 3) / 6.0 + (l // 6) / 11.0,
+                                1 - ((l + t) % 8) / 12.0,
+                                1 - (t % 3) / 4.0,
+                            )
+                        ]
+                    )
+                    style_dict = {"stroke": "none", "fill": c}
+                outfile.write(".l{}t{} {{".format(l, t))
+                outfile.write(" ".join("{}: {};".format(*x) for x in style_dict.items()))
+                outfile.write("}\n")
+            outfile.write("</style>\n")
+            dependencies = OrderedDict()
+            self._add_dependencies(dependencies, set())
+            for cell in dependencies:
+                cell.to_svg(outfile, scaling, precision, "")
+            outfile.write("</defs>\n")
+            if background is not None:
+                outfile.write(
+                    '<rect x="{}" y="{}" width="{}" height="{}" fill="{}" stroke="none"/>\n'.format(
+                        numpy.format_float_positional(x, trim="0", precision=precision),
+                        numpy.format_float_positional(y, trim="0", precision=precision),
+                        numpy.format_float_positional(w, trim="0", precision=precision),
+                        numpy.format_float_positional(h, trim="0", precision=precision),
+                        background,
+                    )
+                )
+            self.to_svg(outfile, scaling, precision, 'transform="scale(1 -1)"')
+            outfile.write("</svg>")
+        finally:
+            if close:
+                outfile.close()
 
 
 class CellReference(object):
@@ -2510,50 +2512,52 @@ class GdsLibrary(object):
             outfile = open(outfile, "wb")
         else:
             close = False
-        now = datetime.datetime.today() if timestamp is None else timestamp
-        name = self.name if len(self.name) % 2 == 0 else (self.name + "\0")
-        outfile.write(
-            struct.pack(
-                ">5H12h2H",
-                6,
-                0x0002,
-                0x0258,
-                28,
-                0x0102,
-                now.year,
-                now.month,
-                now.day,
-                now.hour,
-                now.minute,
-                now.second,
-                now.year,
-                now.month,
-                now.day,
-                now.hour,
-                now.minute,
-                now.second,
-                4 + len(name),
-                0x0206,
+        try:
+            now = datetime.datetime.today() if timestamp is None else timestamp
+            name = self.name if len(self.name) % 2 == 0 else (self.name + "\0")
+            outfile.write(
+                struct.pack(
+                    ">5H12h2H",
+                    6,
+                    0x0002,
+                    0x0258,
+                    28,
+                    0x0102,
+                    now.year,
+                    now.month,
+                    now.day,
+                    now.hour,
+                    now.minute,
+                    now.second,
+                    now.year,
+                    now.month,
+                    now.day,
+                    now.hour,
+                    now.minute,
+                    now.second,
+                    4 + len(name),
+                    0x0206,
+                )
+                + name.encode("ascii")
+                + struct.pack(">2H", 20, 0x0305)
+                + _eight_byte_real(self.precision / self.unit)
+                + _eight_byte_real(self.precision)
             )
-            + name.encode("ascii")
-            + struct.pack(">2H", 20, 0x0305)
-            + _eight_byte_real(self.precision / self.unit)
-            + _eight_byte_real(self.precision)
-        )
-        if cells is None:
-            cells = self.cells.values()
-        else:
-            cells = [self.cells.get(c, c) for c in cells]
-        if len(cells) == 0:
-            warnings.warn("[GDSPY] Creating a GDSII file without any cells.")
-        for cell in cells:
-            cell.to_gds(outfile, self.unit / self.precision, timestamp=timestamp)
-        if binary_cells is not None:
-            for bc in binary_cells:
-                outfile.write(bc)
-        outfile.write(struct.pack(">2H", 4, 0x0400))
-        if close:
-            outfile.close()
+            if cells is None:
+                cells = self.cells.values()
+            else:
+                cells = [self.cells.get(c, c) for c in cells]
+            if len(cells) == 0:
+                warnings.warn("[GDSPY] Creating a GDSII file without any cells.")
+            for cell in cells:
+                cell.to_gds(outfile, self.unit / self.precision, timestamp=timestamp)
+            if binary_cells is not None:
+                for bc in binary_cells:
+                    outfile.write(bc)
+            outfile.write(struct.pack(">2H", 4, 0x0400))
+        finally:
+            if close:
+                outfile.close()
 
     def read_gds(
         self,
@@ -2617,171 +2621,173 @@ class GdsLibrary(object):
             infile = open(infile, "rb")
         else:
             close = False
-        emitted_warnings = []
-        kwargs = {}
-        create_element = None
-        factor = 1
-        cell = None
-        properties = {}
-        attr = -1
-        for record in _record_reader(infile):
-            # LAYER
-            if record[0] == 0x0D:
-                kwargs["layer"] = layers.get(record[1][0], record[1][0])
-            # DATATYPE or BOXTYPE
-            elif record[0] == 0x0E or record[0] == 0x2E:
-                kwargs["datatype"] = datatypes.get(record[1][0], record[1][0])
-            # TEXTTYPE
-            elif record[0] == 0x16:
-                kwargs["texttype"] = texttypes.get(record[1][0], record[1][0])
-            # XY
-            elif record[0] == 0x10:
-                if "xy" in kwargs:
-                    kwargs["xy"] = numpy.concatenate((kwargs["xy"], factor * record[1]))
-                else:
-                    kwargs["xy"] = factor * record[1]
-            # WIDTH
-            elif record[0] == 0x0F:
-                kwargs["width"] = factor * abs(record[1][0])
-                if record[1][0] < 0:
-                    kwargs["width_transform"] = False
-            # ENDEL
-            elif record[0] == 0x11:
-                if create_element is not None:
-                    el = create_element(**kwargs)
-                    if len(properties) > 0:
-                        el.properties = properties
-                    cell.add(el)
-                    create_element = None
-                kwargs = {}
-                properties = {}
-            # BOUNDARY
-            elif record[0] == 0x08:
-                create_element = self._create_polygon
-            # PATH
-            elif record[0] == 0x09:
-                create_element = self._create_path
-            # BOX
-            elif record[0] == 0x2D:
-                create_element = self._create_polygon
-                if record[0] not in emitted_warnings:
-                    warnings.warn(
-                        "[GDSPY] GDSII elements of type BOX are imported as polygons.",
-                        stacklevel=2,
-                    )
-                    emitted_warnings.append(record[0])
-            # TEXT
-            elif record[0] == 0x0C:
-                create_element = self._create_label
-            # SNAME
-            elif record[0] == 0x12:
-                if record[1] in rename:
-                    name = rename[record[1]]
-                else:
-                    name = rename_template.format(name=record[1])
-                kwargs["ref_cell"] = name
-            # COLROW
-            elif record[0] == 0x13:
-                kwargs["columns"] = record[1][0]
-                kwargs["rows"] = record[1][1]
-            # STRANS
-            elif record[0] == 0x1A:
-                kwargs["x_reflection"] = (int(record[1][0]) & 0x8000) > 0
-                if (int(record[1][0]) & 0x0006) and record[0] not in emitted_warnings:
+        try:
+            emitted_warnings = []
+            kwargs = {}
+            create_element = None
+            factor = 1
+            cell = None
+            properties = {}
+            attr = -1
+            for record in _record_reader(infile):
+                # LAYER
+                if record[0] == 0x0D:
+                    kwargs["layer"] = layers.get(record[1][0], record[1][0])
+                # DATATYPE or BOXTYPE
+                elif record[0] == 0x0E or record[0] == 0x2E:
+                    kwargs["datatype"] = datatypes.get(record[1][0], record[1][0])
+                # TEXTTYPE
+                elif record[0] == 0x16:
+                    kwargs["texttype"] = texttypes.get(record[1][0], record[1][0])
+                # XY
+                elif record[0] == 0x10:
+                    if "xy" in kwargs:
+                        kwargs["xy"] = numpy.concatenate((kwargs["xy"], factor * record[1]))
+                    else:
+                        kwargs["xy"] = factor * record[1]
+                # WIDTH
+                elif record[0] == 0x0F:
+                    kwargs["width"] = factor * abs(record[1][0])
+                    if record[1][0] < 0:
+                        kwargs["width_transform"] = False
+                # ENDEL
+                elif record[0] == 0x11:
+                    if create_element is not None:
+                        el = create_element(**kwargs)
+                        if len(properties) > 0:
+                            el.properties = properties
+                        cell.add(el)
+                        create_element = None
+                    kwargs = {}
+                    properties = {}
+                # BOUNDARY
+                elif record[0] == 0x08:
+                    create_element = self._create_polygon
+                # PATH
+                elif record[0] == 0x09:
+                    create_element = self._create_path
+                # BOX
+                elif record[0] == 0x2D:
+                    create_element = self._create_polygon
+                    if record[0] not in emitted_warnings:
+                        warnings.warn(
+                            "[GDSPY] GDSII elements of type BOX are imported as polygons.",
+                            stacklevel=2,
+                        )
+                        emitted_warnings.append(record[0])
+                # TEXT
+                elif record[0] == 0x0C:
+                    create_element = self._create_label
+                # SNAME
+                elif record[0] == 0x12:
+                    if record[1] in rename:
+                        name = rename[record[1]]
+                    else:
+                        name = rename_template.format(name=record[1])
+                    kwargs["ref_cell"] = name
+                # COLROW
+                elif record[0] == 0x13:
+                    kwargs["columns"] = record[1][0]
+                    kwargs["rows"] = record[1][1]
+                # STRANS
+                elif record[0] == 0x1A:
+                    kwargs["x_reflection"] = (int(record[1][0]) & 0x8000) > 0
+                    if (int(record[1][0]) & 0x0006) and record[0] not in emitted_warnings:
+                        warnings.warn(
+                            "[GDSPY] Absolute magnification or rotation of "
+                            "references is not supported.  Transformations "
+                            "will be interpreted as relative.",
+                            stacklevel=2,
+                        )
+                        emitted_warnings.append(record[0])
+                # MAG
+                elif record[0] == 0x1B:
+                    kwargs["magnification"] = record[1][0]
+                # ANGLE
+                elif record[0] == 0x1C:
+                    kwargs["rotation"] = record[1][0]
+                # SREF
+                elif record[0] == 0x0A:
+                    create_element = self._create_reference
+                # AREF
+                elif record[0] == 0x0B:
+                    create_element = self._create_array
+                # STRNAME
+                elif record[0] == 0x06:
+                    if record[1] in rename:
+                        name = rename[record[1]]
+                    else:
+                        name = rename_template.format(name=record[1])
+                    cell = Cell(name, exclude_from_current=True)
+                    if name in self.cells:
+                        raise ValueError("[GDSPY] Multiple cells with name: {0} in GDSII file".format(name))
+                    self.cells[name] = cell
+                # STRING
+                elif record[0] == 0x19:
+                    kwargs["text"] = record[1]
+                # ENDSTR
+                elif record[0] == 0x07:
+                    cell = None
+                # UNITS
+                elif record[0] == 0x03:
+                    if units == "skip":
+                        factor = record[1][0]
+                    elif units == "import":
+                        self.unit = record[1][1] / record[1][0]
+                        self.precision = record[1][1]
+                        factor = record[1][0]
+                    elif units == "convert":
+                        factor = record[1][1] / self.unit
+                    else:
+                        raise ValueError(
+                            "[GDSPY] units must be one of 'convert', 'import' or 'skip'."
+                        )
+                # LIBNAME
+                elif record[0] == 0x02:
+                    self.name = record[1]
+                # PRESENTATION
+                elif record[0] == 0x17:
+                    kwargs["anchor"] = GdsLibrary._import_anchors[
+                        int(record[1][0]) & 0x000F
+                    ]
+                # PATHTYPE
+                elif record[0] == 0x21:
+                    kwargs["ends"] = GdsLibrary._pathtype_dict.get(record[1][0], "extended")
+                # BGNEXTN
+                elif record[0] == 0x30:
+                    kwargs["bgnextn"] = factor * record[1][0]
+                # ENDEXTN
+                elif record[0] == 0x31:
+                    kwargs["endextn"] = factor * record[1][0]
+                # ENDLIB
+                elif record[0] == 0x04:
+                    for ref in self._references:
+                        if ref.ref_cell in self.cells:
+                            ref.ref_cell = self.cells[ref.ref_cell]
+                # PROPATTR
+                elif record[0] == 0x2B:
+                    attr = record[1][0]
+                # PROPVALUE
+                elif record[0] == 0x2C:
+                    properties[attr] = record[1]
+                # Not supported
+                elif (
+                    record[0] not in emitted_warnings
+                    and record[0] not in GdsLibrary._unused_records
+                ):
                     warnings.warn(
-                        "[GDSPY] Absolute magnification or rotation of "
-                        "references is not supported.  Transformations "
-                        "will be interpreted as relative.",
+                        "[GDSPY] Record type {0} ({1:02X}) is not supported.".format(
+                            GdsLibrary._record_name[record[0]]
+                            if record[0] < len(GdsLibrary._record_name)
+                            else "unknown",
+                            record[0],
+                        ),
                         stacklevel=2,
                     )
                     emitted_warnings.append(record[0])
-            # MAG
-            elif record[0] == 0x1B:
-                kwargs["magnification"] = record[1][0]
-            # ANGLE
-            elif record[0] == 0x1C:
-                kwargs["rotation"] = record[1][0]
-            # SREF
-            elif record[0] == 0x0A:
-                create_element = self._create_reference
-            # AREF
-            elif record[0] == 0x0B:
-                create_element = self._create_array
-            # STRNAME
-            elif record[0] == 0x06:
-                if record[1] in rename:
-                    name = rename[record[1]]
-                else:
-                    name = rename_template.format(name=record[1])
-                cell = Cell(name, exclude_from_current=True)
-                if name in self.cells:
-                    raise ValueError("[GDSPY] Multiple cells with name: {0} in GDSII file".format(name))
-                self.cells[name] = cell
-            # STRING
-            elif record[0] == 0x19:
-                kwargs["text"] = record[1]
-            # ENDSTR
-            elif record[0] == 0x07:
-                cell = None
-            # UNITS
-            elif record[0] == 0x03:
-                if units == "skip":
-                    factor = record[1][0]
-                elif units == "import":
-                    self.unit = record[1][1] / record[1][0]
-                    self.precision = record[1][1]
-                    factor = record[1][0]
-                elif units == "convert":
-                    factor = record[1][1] / self.unit
-                else:
-                    raise ValueError(
-                        "[GDSPY] units must be one of 'convert', 'import' or 'skip'."
-                    )
-            # LIBNAME
-            elif record[0] == 0x02:
-                self.name = record[1]
-            # PRESENTATION
-            elif record[0] == 0x17:
-                kwargs["anchor"] = GdsLibrary._import_anchors[
-                    int(record[1][0]) & 0x000F
-                ]
-            # PATHTYPE
-            elif record[0] == 0x21:
-                kwargs["ends"] = GdsLibrary._pathtype_dict.get(record[1][0], "extended")
-            # BGNEXTN
-            elif record[0] == 0x30:
-                kwargs["bgnextn"] = factor * record[1][0]
-            # ENDEXTN
-            elif record[0] == 0x31:
-                kwargs["endextn"] = factor * record[1][0]
-            # ENDLIB
-            elif record[0] == 0x04:
-                for ref in self._references:
-                    if ref.ref_cell in self.cells:
-                        ref.ref_cell = self.cells[ref.ref_cell]
-            # PROPATTR
-            elif record[0] == 0x2B:
-                attr = record[1][0]
-            # PROPVALUE
-            elif record[0] == 0x2C:
-                properties[attr] = record[1]
-            # Not supported
-            elif (
-                record[0] not in emitted_warnings
-                and record[0] not in GdsLibrary._unused_records
-            ):
-                warnings.warn(
-                    "[GDSPY] Record type {0} ({1:02X}) is not supported.".format(
-                        GdsLibrary._record_name[record[0]]
-                        if record[0] < len(GdsLibrary._record_name)
-                        else "unknown",
-                        record[0],
-                    ),
-                    stacklevel=2,
-                )
-                emitted_warnings.append(record[0])
-        if close:
-            infile.close()
+        finally:
+            if close:
+                infile.close()
         return self
 
     def _create_polygon(self, layer, datatype, xy):
@@ -3042,38 +3048,43 @@ class GdsWriter(object):
         else:
             self._outfile = outfile
             self._close = False
-        self._res = unit / precision
-        now = datetime.datetime.today() if timestamp is None else timestamp
-        if len(name) % 2 != 0:
-            name = name + "\0"
-        self._outfile.write(
-            struct.pack(
-                ">5H12h2H",
-                6,
-                0x0002,
-                0x0258,
-                28,
-                0x0102,
-                now.year,
-                now.month,
-                now.day,
-                now.hour,
-                now.minute,
-                now.second,
-                now.year,
-                now.month,
-                now.day,
-                now.hour,
-                now.minute,
-                now.second,
-                4 + len(name),
-                0x0206,
+        try:
+            self._res = unit / precision
+            now = datetime.datetime.today() if timestamp is None else timestamp
+            if len(name) % 2 != 0:
+                name = name + "\0"
+            self._outfile.write(
+                struct.pack(
+                    ">5H12h2H",
+                    6,
+                    0x0002,
+                    0x0258,
+                    28,
+                    0x0102,
+                    now.year,
+                    now.month,
+                    now.day,
+                    now.hour,
+                    now.minute,
+                    now.second,
+                    now.year,
+                    now.month,
+                    now.day,
+                    now.hour,
+                    now.minute,
+                    now.second,
+                    4 + len(name),
+                    0x0206,
+                )
+                + name.encode("ascii")
+                + struct.pack(">2H", 20, 0x0305)
+                + _eight_byte_real(precision / unit)
+                + _eight_byte_real(precision)
             )
-            + name.encode("ascii")
-            + struct.pack(">2H", 20, 0x0305)
-            + _eight_byte_real(precision / unit)
-            + _eight_byte_real(precision)
-        )
+        except BaseException:
+            if self._close:
+                self._outfile.close()
+            raise
 
     def write_cell(self, cell, timestamp=None):
         """
@@ -3123,9 +3134,11 @@ class GdsWriter(object):
         """
         Finalize the GDSII stream library.
         """
-        self._outfile.write(struct.pack(">2H", 4, 0x0400))
-        if self._close:
-            self._outfile.close()
+        try:
+            self._outfile.write(struct.pack(">2H", 4, 0x0400))
+        finally:
+            if self._close:
+                self._outfile.close()
 
 
 def get_gds_units(infile):
@@ -3149,17 +3162,19 @@ def get_gds_units(infile):
         infile = open(infile, "rb")
     else:
         close = False
-    unit = precision = None
-    for rec_type, data in _raw_record_reader(infile):
-        # UNITS
-        if rec_type == 0x03:
-            db_user = _eight_byte_real_to_float(data[4:12])
-            db_meters = _eight_byte_real_to_float(data[12:])
-            unit = db_meters / db_user
-            precision = db_meters
-            break
-    if close:
-        infile.close()
+    try:
+        unit = precision = None
+        for rec_type, data in _raw_record_reader(infile):
+            # UNITS
+            if rec_type == 0x03:
+                db_user = _eight_byte_real_to_float(data[4:12])
+                db_meters = _eight_byte_real_to_float(data[12:])
+                unit = db_meters / db_user
+                precision = db_meters
+                break
+    finally:
+        if close:
+            infile.close()
     return (unit, precision)
 
 
@@ -3191,33 +3206,35 @@ def get_binary_cells(infile):
         infile = open(infile, "rb")
     else:
         close = False
-    cells = {}
-    name = None
-    cell_data = None
-    for rec_type, data in _raw_record_reader(infile):
-        # BGNSTR
-        if rec_type == 0x05:
-            cell_data = [data]
-        # STRNAME
-        elif rec_type == 0x06:
-            cell_data.append(data)
-            if str is not bytes:
-                if data[-1] == 0:
-                    name = data[4:-1].decode("ascii")
-                else:
-                    name = data[4:].decode("ascii")
-            else:
-                if data[-1] == "\0":
-                    name = data[4:-1]
+    try:
+        cells = {}
+        name = None
+        cell_data = None
+        for rec_type, data in _raw_record_reader(infile):
+            # BGNSTR
+            if rec_type == 0x05:
+                cell_data = [data]
+            # STRNAME
+            elif rec_type == 0x06:
+                cell_data.append(data)
+                if str is not bytes:
+                    if data[-1] == 0:
+                        name = data[4:-1].decode("ascii")
+                    else:
+                        name = data[4:].decode("ascii")
                 else:
-                    name = data[4:]
-        # ENDSTR
-        elif rec_type == 0x07:
-            cell_data.append(data)
-            cells[name] = b"".join(cell_data)
-            cell_data = None
-        elif cell_data is not None:
-            cell_data.append(data)
-    if close:
-        infile.close()
+                    if data[-1] == "\0":
+                        name = data[4:-1]
+                    else:
+                        name = data[4:]
+            # ENDSTR
+            elif rec_type == 0x07:
+                cell_data.append(data)
+                cells[name] = b"".join(cell_data)
+                cell_data = None
+            elif cell_data is not None:
+                cell_data.append(data)
+    finally:
+        if close:
+            infile.close()
     return cells
-- 
2.43.0


From c1e042bc13fbcdc3515f23c5900e812b6818cdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:27 +0000
Subject: [PATCH 15/54] fix: a failed import leaves the library as it was

---
 gdspy/library.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 817346e..66b573c 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -2626,7 +2626,9 @@ class GdsLibrary(object):
             kwargs = {}
             create_element = None
             factor = 1
+            cells = {}
             cell = None
+            library = {}
             properties = {}
             attr = -1
             for record in _record_reader(infile):
@@ -2719,9 +2721,9 @@ class GdsLibrary(object):
                     else:
                         name = rename_template.format(name=record[1])
                     cell = Cell(name, exclude_from_current=True)
-                    if name in self.cells:
+                    if name in self.cells or name in cells:
                         raise ValueError("[GDSPY] Multiple cells with name: {0} in GDSII file".format(name))
-                    self.cells[name] = cell
+                    cells[name] = cell
                 # STRING
                 elif record[0] == 0x19:
                     kwargs["text"] = record[1]
@@ -2733,8 +2735,8 @@ class GdsLibrary(object):
                     if units == "skip":
                         factor = record[1][0]
                     elif units == "import":
-                        self.unit = record[1][1] / record[1][0]
-                        self.precision = record[1][1]
+                        library["unit"] = record[1][1] / record[1][0]
+                        library["precision"] = record[1][1]
                         factor = record[1][0]
                     elif units == "convert":
                         factor = record[1][1] / self.unit
@@ -2744,7 +2746,7 @@ class GdsLibrary(object):
                         )
                 # LIBNAME
                 elif record[0] == 0x02:
-                    self.name = record[1]
+                    library["name"] = record[1]
                 # PRESENTATION
                 elif record[0] == 0x17:
                     kwargs["anchor"] = GdsLibrary._import_anchors[
@@ -2762,7 +2764,9 @@ class GdsLibrary(object):
                 # ENDLIB
                 elif record[0] == 0x04:
                     for ref in self._references:
-                        if ref.ref_cell in self.cells:
+                        if ref.ref_cell in cells:
+                            ref.ref_cell = cells[ref.ref_cell]
+                        elif ref.ref_cell in self.cells:
                             ref.ref_cell = self.cells[ref.ref_cell]
                 # PROPATTR
                 elif record[0] == 0x2B:
@@ -2788,6 +2792,10 @@ class GdsLibrary(object):
         finally:
             if close:
                 infile.close()
+        # The library is changed only after a successful import
+        self.cells.update(cells)
+        for attribute, value in library.items():
+            setattr(self, attribute, value)
         return self
 
     def _create_polygon(self, layer, datatype, xy):
-- 
2.43.0


From 291b7673a1c0f14da018315aee10d5f7f34321ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:45 +0000
Subject: [PATCH 16/54] fix: RobustPath does not modify the lists used to
 create it

---
 gdspy/path.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 78f2214..d7a9212 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -1834,9 +1834,9 @@ class RobustPath(object):
         self._polygon_dict = None
         if isinstance(width, list):
             self.n = len(width)
-            self.widths = width
+            self.widths = list(width)
             if isinstance(offset, list):
-                self.offsets = offset
+                self.offsets = list(offset)
             else:
                 self.offsets = [
                     (i - 0.5 * (self.n - 1)) * offset for i in range(self.n)
@@ -1844,7 +1844,7 @@ class RobustPath(object):
         else:
             if isinstance(offset, list):
                 self.n = len(offset)
-                self.offsets = offset
+                self.offsets = list(offset)
             else:
                 self.n = 1
                 self.offsets = [offset]
-- 
2.43.0


From d9ae4e30a8cfe63cb953b20a1747b1694bc3c68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:45 +0000
Subject: [PATCH 17/54] fix: RobustPath coordinates are rounded to the nearest
 database unit

---
 gdspy/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index d7a9212..6c5415b 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -2336,7 +2336,7 @@ class RobustPath(object):
                         points.append(px)
                     start = 0
             points.extend(self.paths[ii][-1].points(start, 1, 0))
-            points = (numpy.array(points) * multiplier).astype(">i4")
+            points = numpy.round(numpy.array(points) * multiplier).astype(">i4")
             if points.shape[0] > 8191:
                 warnings.warn(
                     "[GDSPY] Paths with more than 8191 are not supported "
-- 
2.43.0


From 30f204cc91e53c0f54d4e67e5bcc9e30a10d869b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:10 +0000
Subject: [PATCH 18/54] fix: a construction step that fails leaves the path as
 it was

---
 gdspy/path.py | 125 ++++++++++++++++++++++++++------------------------
 1 file changed, 66 insertions(+), 59 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 6c5415b..a10baef 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -387,6 +387,15 @@ class FlexPath(object):
                 self.points.shape[0], self.layers[0], self.datatypes[0]
             )
 
+    def _update(self, points, widths, offsets):
+        """
+        Set new points, widths and offsets, all of them already calculated.
+        """
+        self._polygon_dict = None
+        self.points = points
+        self.widths = widths
+        self.offsets = offsets
+
     def _distinct_points(self):
         """
         Points, widths and offsets of this path without those at
@@ -1345,25 +1354,25 @@ class FlexPath(object):
         out : `FlexPath`
             This object.
         """
-        self._polygon_dict = None
-        self.points = numpy.vstack(
+        points = numpy.vstack(
             (
                 self.points,
                 (self.points[-1] + numpy.array(end_point)) if relative else end_point,
             )
         )
         if self.gdsii_path or width is None:
-            self.widths = numpy.vstack((self.widths, self.widths[-1]))
+            widths = numpy.vstack((self.widths, self.widths[-1]))
         elif hasattr(width, "__iter__"):
-            self.widths = numpy.vstack((self.widths, width))
+            widths = numpy.vstack((self.widths, width))
         else:
-            self.widths = numpy.vstack((self.widths, numpy.repeat(width, self.n)))
+            widths = numpy.vstack((self.widths, numpy.repeat(width, self.n)))
         if offset is None:
-            self.offsets = numpy.vstack((self.offsets, self.offsets[-1]))
+            offsets = numpy.vstack((self.offsets, self.offsets[-1]))
         elif hasattr(offset, "__iter__"):
-            self.offsets = numpy.vstack((self.offsets, offset))
+            offsets = numpy.vstack((self.offsets, offset))
         else:
-            self.offsets = numpy.vstack((self.offsets, self.offsets[-1] + offset))
+            offsets = numpy.vstack((self.offsets, self.offsets[-1] + offset))
+        self._update(points, widths, offsets)
         return self
 
     def arc(self, radius, initial_angle, final_angle, width=None, offset=None):
@@ -1426,24 +1435,25 @@ class FlexPath(object):
         )
         ang = numpy.linspace(initial_angle, final_angle, np)
         pts = radius * numpy.vstack((numpy.cos(ang), numpy.sin(ang))).T
-        self.points = numpy.vstack((self.points, pts[1:] + (self.points[-1] - pts[0])))
+        points = numpy.vstack((self.points, pts[1:] + (self.points[-1] - pts[0])))
         if width is None:
-            self.widths = numpy.vstack((self.widths, numpy.tile(wid, (np - 1, 1))))
+            widths = numpy.vstack((self.widths, numpy.tile(wid, (np - 1, 1))))
         else:
             u = numpy.linspace(0, 1, np)[1:]
-            self.widths = numpy.vstack(
+            widths = numpy.vstack(
                 (self.widths, numpy.outer(1 - u, self.widths[-1]) + numpy.outer(u, wid))
             )
         if offset is None:
-            self.offsets = numpy.vstack((self.offsets, numpy.tile(off, (np - 1, 1))))
+            offsets = numpy.vstack((self.offsets, numpy.tile(off, (np - 1, 1))))
         else:
             u = numpy.linspace(0, 1, np)[1:]
-            self.offsets = numpy.vstack(
+            offsets = numpy.vstack(
                 (
                     self.offsets,
                     numpy.outer(1 - u, self.offsets[-1]) + numpy.outer(u, off),
                 )
             )
+        self._update(points, widths, offsets)
         return self
 
     def turn(self, radius, angle, width=None, offset=None):
@@ -1560,26 +1570,27 @@ class FlexPath(object):
             i += 1
         pts = numpy.array(pts[1:])
         np = pts.shape[0] + 1
-        self.points = numpy.vstack(
+        points = numpy.vstack(
             (self.points, (pts + self.points[-1]) if relative else pts)
         )
         if width is None:
-            self.widths = numpy.vstack((self.widths, numpy.tile(wid, (np - 1, 1))))
+            widths = numpy.vstack((self.widths, numpy.tile(wid, (np - 1, 1))))
         else:
             u = numpy.linspace(0, 1, np)[1:]
-            self.widths = numpy.vstack(
+            widths = numpy.vstack(
                 (self.widths, numpy.outer(1 - u, self.widths[-1]) + numpy.outer(u, wid))
             )
         if offset is None:
-            self.offsets = numpy.vstack((self.offsets, numpy.tile(off, (np - 1, 1))))
+            offsets = numpy.vstack((self.offsets, numpy.tile(off, (np - 1, 1))))
         else:
             u = numpy.linspace(0, 1, np)[1:]
-            self.offsets = numpy.vstack(
+            offsets = numpy.vstack(
                 (
                     self.offsets,
                     numpy.outer(1 - u, self.offsets[-1]) + numpy.outer(u, off),
                 )
             )
+        self._update(points, widths, offsets)
         return self
 
     def bezier(self, points, width=None, offset=None, relative=True):
@@ -2591,7 +2602,7 @@ class RobustPath(object):
                 warnings.warn(
                     "[GDSPY] Argument `width` ignored in RobustPath with "
                     "`gdsii_path == True`.",
-                    stacklevel=3,
+                    stacklevel=4,
                 )
             return _func_const(self.widths[idx])
         elif hasattr(arg, "__getitem__"):
@@ -2602,6 +2613,25 @@ class RobustPath(object):
             return arg
         return _func_linear(self.widths[idx], arg)
 
+    def _append(self, x, f, df, width, offset):
+        """
+        Append a new section to the path, up to position `x`.
+
+        The path is not changed if any of the functions that define the
+        section fails.
+        """
+        sections = []
+        for i in range(self.n):
+            off = self._parse_offset(offset, i)
+            wid = self._parse_width(width, i)
+            sub = _SubPath(f, df, off, wid, self.tolerance, self.max_evals)
+            sections.append((sub, wid(1), off(1)))
+        self._polygon_dict = None
+        self.x = numpy.array(x)
+        for i in range(self.n):
+            sub, self.widths[i], self.offsets[i] = sections[i]
+            self.paths[i].append(sub)
+
     def segment(self, end_point, width=None, offset=None, relative=False):
         """
         Add a straight section to the path.
@@ -2641,15 +2671,7 @@ class RobustPath(object):
         x = (numpy.array(end_point) + self.x) if relative else numpy.array(end_point)
         f = _func_linear(self.x, x)
         df = _func_const(x - self.x, 2)
-        self.x = numpy.array(x)
-        for i in range(self.n):
-            off = self._parse_offset(offset, i)
-            wid = self._parse_width(width, i)
-            self.paths[i].append(
-                _SubPath(f, df, off, wid, self.tolerance, self.max_evals)
-            )
-            self.widths[i] = wid(1)
-            self.offsets[i] = off(1)
+        self._append(x, f, df, width, offset)
         return self
 
     def arc(self, radius, initial_angle, final_angle, width=None, offset=None):
@@ -2701,15 +2723,7 @@ class RobustPath(object):
             r = radius * (final_angle - initial_angle)
             return numpy.array((-r * numpy.sin(angle), r * numpy.cos(angle)))
 
-        self.x = f(1)
-        for i in range(self.n):
-            off = self._parse_offset(offset, i)
-            wid = self._parse_width(width, i)
-            self.paths[i].append(
-                _SubPath(f, df, off, wid, self.tolerance, self.max_evals)
-            )
-            self.widths[i] = wid(1)
-            self.offsets[i] = off(1)
+        self._append(f(1), f, df, width, offset)
         return self
 
     def turn(self, radius, angle, width=None, offset=None):
@@ -2829,15 +2843,7 @@ class RobustPath(object):
             def df(u, h):
                 return curve_derivative(u)
 
-        self.x = f(1)
-        for i in range(self.n):
-            off = self._parse_offset(offset, i)
-            wid = self._parse_width(width, i)
-            self.paths[i].append(
-                _SubPath(f, df, off, wid, self.tolerance, self.max_evals)
-            )
-            self.widths[i] = wid(1)
-            self.offsets[i] = off(1)
+        self._append(f(1), f, df, width, offset)
         return self
 
     def bezier(self, points, width=None, offset=None, relative=True):
@@ -2884,17 +2890,9 @@ class RobustPath(object):
         else:
             ctrl = numpy.vstack(([self.x], points))
         dctrl = (ctrl.shape[0] - 1) * (ctrl[1:] - ctrl[:-1])
-        self.x = ctrl[-1]
         f = _func_bezier(ctrl)
         df = _func_bezier(dctrl, 2)
-        for i in range(self.n):
-            off = self._parse_offset(offset, i)
-            wid = self._parse_width(width, i)
-            self.paths[i].append(
-                _SubPath(f, df, off, wid, self.tolerance, self.max_evals)
-            )
-            self.widths[i] = wid(1)
-            self.offsets[i] = off(1)
+        self._append(ctrl[-1], f, df, width, offset)
         return self
 
     def smooth(
@@ -2987,8 +2985,17 @@ class RobustPath(object):
         else:
             points = numpy.vstack(([self.x], points))
         cta, ctb = _hobby(points, angles, curl_start, curl_end, t_in, t_out, cycle)
-        for i in range(points.shape[0] - 1):
-            self.bezier((cta[i], ctb[i], points[i + 1]), width, offset, False)
-        if cycle:
-            self.bezier((cta[-1], ctb[-1], points[0]), width, offset, False)
+        x, widths, offsets = self.x, list(self.widths), list(self.offsets)
+        size = len(self)
+        try:
+            for i in range(points.shape[0] - 1):
+                self.bezier((cta[i], ctb[i], points[i + 1]), width, offset, False)
+            if cycle:
+                self.bezier((cta[-1], ctb[-1], points[0]), width, offset, False)
+        except BaseException:
+            self._polygon_dict = None
+            self.x, self.widths, self.offsets = x, widths, offsets
+            for path in self.paths:
+                del path[size:]
+            raise
         return self
-- 
2.43.0


From 7d05b6feb818d57592bab12166f2f9deb5866b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:29 +0000
Subject: [PATCH 19/54] fix: LayoutViewer does not modify the list of hidden
 types from the caller

---
 gdspy/viewer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/viewer.py b/gdspy/viewer.py
index c9bd6fa..bbb8aff 100644
--- a/gdspy/viewer.py
+++ b/gdspy/viewer.py
@@ -219,7 +219,7 @@ class LayoutViewer(tkinter.Frame):
         self.depth = tkinter.IntVar()
         self.depth.set(depth)
 
-        self.hidden_layers = hidden_types
+        self.hidden_layers = list(hidden_types)
 
         self.color = ColorDict(color.get("default", None))
         self.color.update(color)
-- 
2.43.0


From 1994d9642a6c69338b38536e445bf6ed2079f97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:08 +0000
Subject: [PATCH 20/54] fix: gdsii_hash accepts any amount of zero padding

---
 gdspy/gdsiiformat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/gdsiiformat.py b/gdspy/gdsiiformat.py
index 9408d0c..c41579d 100644
--- a/gdspy/gdsiiformat.py
+++ b/gdspy/gdsiiformat.py
@@ -211,7 +211,7 @@ def gdsii_hash(filename, engine=None):
         data = fin.read()
     contents = []
     start = pos = 0
-    while pos < len(data):
+    while pos + 4 <= len(data):
         size, rec = struct.unpack(">HH", data[pos : pos + 4])
         if size > 0 and rec == 0x0502:
             start = pos + 28
-- 
2.43.0


From 823d05c3335af54f61716f8e3ec84625b65f94c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:57 +0000
Subject: [PATCH 21/54] fix: operations accept FlexPath elements inside an
 iterable operand

---
 gdspy/operation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/operation.py b/gdspy/operation.py
index ff5d351..f8f38f2 100644
--- a/gdspy/operation.py
+++ b/gdspy/operation.py
@@ -72,7 +72,7 @@ def _gather_polys(args):
             polys.extend(p.polygons)
         elif (
             isinstance(p, RobustPath)
-            or isinstance(args, FlexPath)
+            or isinstance(p, FlexPath)
             or isinstance(p, CellReference)
             or isinstance(p, CellArray)
         ):
-- 
2.43.0


From 87b7fa0c44669a1d4035c96722f2af3606dd86e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:37 +0000
Subject: [PATCH 22/54] fix: clipper keeps reference counts and reports errors
 raised by user sequences

---
 gdspy/clipper.cpp | 132 ++++++++++++++++++++--------------------------
 1 file changed, 58 insertions(+), 74 deletions(-)

diff --git a/gdspy/clipper.cpp b/gdspy/clipper.cpp
index f5a599e..9fb0286 100644
--- a/gdspy/clipper.cpp
+++ b/gdspy/clipper.cpp
@@ -4638,48 +4638,57 @@ std::ostream& operator <<(std::ostream &s, const Paths &p)
  * GDSPY additions below this comment                                 *
  **********************************************************************/
 
+// Owns one reference, released on every way out of its scope.
+struct Owned
+{
+  PyObject *obj;
+  explicit Owned(PyObject *o) : obj(o) {}
+  ~Owned() { Py_XDECREF(obj); }
+  PyObject* release() { PyObject *o = obj; obj = NULL; return o; }
+private:
+  Owned(const Owned&);
+  Owned& operator=(const Owned&);
+};
+
+// Scaled coordinates must be finite and within the range clipper supports.
+static bool to_coordinate(PyObject *number, double scaling, cInt &result)
+{
+  double x = PyFloat_AsDouble(number);
+  if (x == -1.0 && PyErr_Occurred() != NULL) return false;
+  x *= scaling;
+  if (!(x > -static_cast<double>(hiRange) && x < static_cast<double>(hiRange)))
+  {
+    PyErr_SetString(PyExc_ValueError, "Coordinate outside allowed range.");
+    return false;
+  }
+  result = Round(x);
+  return true;
+}
+
+// The reference to py_polygon belongs to the caller, whatever happens here.
 short parse_polygon(PyObject *py_polygon, Path &path, double scaling, bool check_orientation)
 {
   /* Parse a complete polygon */
-  PyObject *py_point, *py_coord;
-  long num_points = PySequence_Length(py_polygon);
   cInt orientation = 0;
 
   if (!PySequence_Check(py_polygon))
   {
-    Py_DECREF(py_polygon);
     PyErr_SetString(PyExc_TypeError, "Polygon must be a sequence.");
     return -1;
   }
 
-  path.resize(num_points);
-  for (long j = 0; j < num_points; ++j)
-  {
-    if ((py_point = PySequence_ITEM(py_polygon, j)) == NULL)
-    {
-      Py_DECREF(py_polygon);
-      return -1;
-    }
-    if ((py_coord = PySequence_GetItem(py_point, 0)) == NULL)
-    {
-      Py_DECREF(py_point);
-      Py_DECREF(py_polygon);
-      return -1;
-    }
-    double x = PyFloat_AsDouble(py_coord);
-    Py_DECREF(py_coord);
+  Py_ssize_t num_points = PySequence_Length(py_polygon);
+  if (num_points < 0) return -1;
 
-    if ((py_coord = PySequence_GetItem(py_point, 1)) == NULL)
-    {
-      Py_DECREF(py_point);
-      Py_DECREF(py_polygon);
-      return -1;
-    }
-    double y = PyFloat_AsDouble(py_coord);
-    Py_DECREF(py_coord);
-    Py_DECREF(py_point);
-    path[j].X = Round(scaling * x);
-    path[j].Y = Round(scaling * y);
+  path.resize(num_points);
+  for (Py_ssize_t j = 0; j < num_points; ++j)
+  {
+    Owned py_point(PySequence_ITEM(py_polygon, j));
+    if (py_point.obj == NULL) return -1;
+    Owned py_x(PySequence_GetItem(py_point.obj, 0));
+    if (py_x.obj == NULL || !to_coordinate(py_x.obj, scaling, path[j].X)) return -1;
+    Owned py_y(PySequence_GetItem(py_point.obj, 1));
+    if (py_y.obj == NULL || !to_coordinate(py_y.obj, scaling, path[j].Y)) return -1;
 #ifdef DEBUG
     std::cout << path[j].X << "," << path[j].Y << std::endl;
 #endif //DEBUG
@@ -4700,27 +4709,18 @@ short parse_polygon(PyObject *py_polygon, Path &path, double scaling, bool check
 
 short parse_polygon_set(PyObject *polyset, Paths &paths, double scaling, bool check_orientation)
 {
-  PyObject *py_polygon;
-  long num = PySequence_Length(polyset);
+  Py_ssize_t num = PySequence_Length(polyset);
+  if (num < 0) return -1;
 
   paths.resize(num);
-  for (long i = 0; i < num; ++i)
+  for (Py_ssize_t i = 0; i < num; ++i)
   {
 #ifdef DEBUG
     std::cout << std::endl << "Polygon " << i << std::endl;
 #endif //DEBUG
-    if ((py_polygon = PySequence_ITEM(polyset, i)) == NULL)
-    {
-      return -1;
-    }
-
-    if (parse_polygon(py_polygon, paths[i], scaling, check_orientation) != 0)
-    {
-      Py_DECREF(py_polygon);
-      return -1;
-    }
-
-    Py_DECREF(py_polygon);
+    Owned py_polygon(PySequence_ITEM(polyset, i));
+    if (py_polygon.obj == NULL) return -1;
+    if (parse_polygon(py_polygon.obj, paths[i], scaling, check_orientation) != 0) return -1;
   }
 
   return 0;
@@ -5139,7 +5139,7 @@ static PyObject* chop(PyObject *self, PyObject *args)
   unsigned char axis;
   double  scaling;
 
-  PyObject *resultitem, *returntuple, *position;
+  PyObject *resultitem;
   Paths result;
   Paths subj(1);
   Paths clip(1, Path(4));
@@ -5147,7 +5147,7 @@ static PyObject* chop(PyObject *self, PyObject *args)
   Clipper clpr;
   cInt bb[4];
   cInt pos;
-  long num_cuts;
+  Py_ssize_t num_cuts;
 
   if (!PyArg_ParseTuple(args, "OOBd:_chop", &polygon, &positions, &axis, &scaling)) return NULL;
 
@@ -5165,26 +5165,21 @@ static PyObject* chop(PyObject *self, PyObject *args)
     return NULL;
   }
   num_cuts = PySequence_Length(positions);
+  if (num_cuts < 0) return NULL;
 
-  if ((returntuple = PyTuple_New(num_cuts + 1)) == NULL) return NULL;
+  Owned returntuple(PyTuple_New(num_cuts + 1));
+  if (returntuple.obj == NULL) return NULL;
 
   pos = axis == 0 ? bb[0] : bb[2];
-  for (long i = 0; i <= num_cuts; ++i)
+  for (Py_ssize_t i = 0; i <= num_cuts; ++i)
   {
     if (axis == 0)
     {
       clip[0][0].X = clip[0][3].X = pos;
       if (i < num_cuts)
       {
-        position = PySequence_ITEM(positions, i);
-        pos = Round(scaling * PyFloat_AsDouble(position));
-        Py_DECREF(position);
-        if (PyErr_Occurred() != NULL)
-        {
-          PyErr_SetString(PyExc_TypeError, "Positions must be a sequence of numbers.");
-          Py_DECREF(returntuple);
-          return NULL;
-        }
+        Owned position(PySequence_ITEM(positions, i));
+        if (position.obj == NULL || !to_coordinate(position.obj, scaling, pos)) return NULL;
       }
       else
       {
@@ -5197,15 +5192,8 @@ static PyObject* chop(PyObject *self, PyObject *args)
       clip[0][0].Y = clip[0][1].Y = pos;
       if (i < num_cuts)
       {
-        position = PySequence_ITEM(positions, i);
-        pos = Round(scaling * PyFloat_AsDouble(position));
-        Py_DECREF(position);
-        if (PyErr_Occurred() != NULL)
-        {
-          PyErr_SetString(PyExc_TypeError, "Positions must be a sequence of numbers.");
-          Py_DECREF(returntuple);
-          return NULL;
-        }
+        Owned position(PySequence_ITEM(positions, i));
+        if (position.obj == NULL || !to_coordinate(position.obj, scaling, pos)) return NULL;
       }
       else
       {
@@ -5219,14 +5207,10 @@ static PyObject* chop(PyObject *self, PyObject *args)
     clpr.Execute(ctIntersection, solution, pftNonZero, pftNonZero);
     result.clear();
     tree2paths(solution, result);
-    if ((resultitem = build_polygon_tuple(result, scaling)) == NULL)
-    {
-      Py_DECREF(returntuple);
-      return NULL;
-    }
-    PyTuple_SET_ITEM(returntuple, i, resultitem);
+    if ((resultitem = build_polygon_tuple(result, scaling)) == NULL) return NULL;
+    PyTuple_SET_ITEM(returntuple.obj, i, resultitem);
   }
-  return returntuple;
+  return returntuple.release();
 }
 
 } // extern "C"
-- 
2.43.0


From 9ceb17260b3f90ab80f6fe76d050a05b4e5bf93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:54 +0000
Subject: [PATCH 23/54] fix: clipping failures raise instead of giving an empty
 result or ending the process

---
 gdspy/clipper.cpp | 99 +++++++++++++++++++++++++++++++----------------
 1 file changed, 66 insertions(+), 33 deletions(-)

diff --git a/gdspy/clipper.cpp b/gdspy/clipper.cpp
index 9fb0286..9399727 100644
--- a/gdspy/clipper.cpp
+++ b/gdspy/clipper.cpp
@@ -1525,8 +1525,20 @@ bool Clipper::Execute(ClipType clipType, Paths &solution,
   m_ClipFillType = clipFillType;
   m_ClipType = clipType;
   m_UsingPolyTree = false;
-  bool succeeded = ExecuteInternal();
-  if (succeeded) BuildResult(solution);
+  bool succeeded;
+  try
+  {
+    succeeded = ExecuteInternal();
+    if (succeeded) BuildResult(solution);
+  }
+  catch(...)
+  {
+    ClearJoins();
+    ClearGhostJoins();
+    DisposeAllOutRecs();
+    m_ExecuteLocked = false;
+    throw;
+  }
   DisposeAllOutRecs();
   m_ExecuteLocked = false;
   return succeeded;
@@ -1542,8 +1554,20 @@ bool Clipper::Execute(ClipType clipType, PolyTree& polytree,
   m_ClipFillType = clipFillType;
   m_ClipType = clipType;
   m_UsingPolyTree = true;
-  bool succeeded = ExecuteInternal();
-  if (succeeded) BuildResult2(polytree);
+  bool succeeded;
+  try
+  {
+    succeeded = ExecuteInternal();
+    if (succeeded) BuildResult2(polytree);
+  }
+  catch(...)
+  {
+    ClearJoins();
+    ClearGhostJoins();
+    DisposeAllOutRecs();
+    m_ExecuteLocked = false;
+    throw;
+  }
   DisposeAllOutRecs();
   m_ExecuteLocked = false;
   return succeeded;
@@ -1582,10 +1606,7 @@ bool Clipper::ExecuteInternal()
       ProcessHorizontals();
 	    ClearGhostJoins();
       if (!ProcessIntersections(topY))
-      {
-        succeeded = false;
-        break;
-      }
+        throw clipperException("ProcessIntersections error");
       ProcessEdgesAtTopOfScanbeam(topY);
       botY = topY;
       InsertLocalMinimaIntoAEL(botY);
@@ -1593,7 +1614,10 @@ bool Clipper::ExecuteInternal()
   }
   catch(...) 
   {
-    succeeded = false;
+    ClearJoins();
+    ClearGhostJoins();
+    DisposeIntersectNodes();
+    throw;
   }
 
   if (succeeded)
@@ -2846,7 +2870,7 @@ bool Clipper::ProcessIntersections(const cInt topY)
   {
     m_SortedEdges = 0;
     DisposeIntersectNodes();
-    throw clipperException("ProcessIntersections error");
+    throw;
   }
   m_SortedEdges = 0;
   return true;
@@ -4837,45 +4861,34 @@ void tree2paths(PolyTree &tree, Paths &out)
 
 PyObject* build_polygon_tuple(Paths &polygons, double scaling)
 {
-  PyObject *result;
-
-  if ((result = PyTuple_New(polygons.size())) == NULL) return NULL;
+  Owned result(PyTuple_New(polygons.size()));
+  if (result.obj == NULL) return NULL;
   for (Paths::size_type i = 0; i < polygons.size(); ++i)
   {
 #ifdef DEBUG
     std::cout << std::endl << "Result " << i << std::endl;
 #endif //DEBUG
-    Path poly = polygons[i];
+    Path &poly = polygons[i];
     PyObject *polyt = PyTuple_New(poly.size());
-    if (polyt == NULL)
-    {
-      Py_DECREF(result);
-      return NULL;
-    }
+    if (polyt == NULL) return NULL;
+    PyTuple_SET_ITEM(result.obj, i, polyt);
     for (Path::size_type j = 0; j < poly.size(); ++j)
     {
       PyObject *pt = PyTuple_New(2);
+      if (pt == NULL) return NULL;
+      PyTuple_SET_ITEM(polyt, j, pt);
       PyObject *x = PyFloat_FromDouble(poly[j].X / scaling);
+      if (x == NULL) return NULL;
+      PyTuple_SET_ITEM(pt, 0, x);
       PyObject *y = PyFloat_FromDouble(poly[j].Y / scaling);
+      if (y == NULL) return NULL;
+      PyTuple_SET_ITEM(pt, 1, y);
 #ifdef DEBUG
       std::cout << poly[j].X << "," << poly[j].Y << std::endl;
 #endif //DEBUG
-      if (pt == NULL || x == NULL || y == NULL)
-      {
-        Py_DECREF(result);
-        Py_DECREF(polyt);
-        Py_XDECREF(pt);
-        Py_XDECREF(x);
-        Py_XDECREF(y);
-        return NULL;
-      }
-      PyTuple_SET_ITEM(pt, 0, x);
-      PyTuple_SET_ITEM(pt, 1, y);
-      PyTuple_SET_ITEM(polyt, j, pt);
     }
-    PyTuple_SET_ITEM(result, i, polyt);
   }
-  return result;
+  return result.release();
 }
 
 //------------------------------------------------------------------------------
@@ -4898,9 +4911,20 @@ cInt bounding_box(Path& points, cInt* bb)
 
 //------------------------------------------------------------------------------
 
+// C++ exceptions must not reach the interpreter
+#define RAISE_CXX_EXCEPTIONS \
+catch (const std::bad_alloc&) { return PyErr_NoMemory(); } \
+catch (const std::length_error&) { return PyErr_NoMemory(); } \
+catch (const std::exception &error) \
+{ \
+  PyErr_SetString(PyExc_RuntimeError, error.what()); \
+  return NULL; \
+}
+
 extern "C" {
 
 static PyObject* clip(PyObject *self, PyObject *args)
+try
 {
   PyObject *polyA, *polyB;
   const char *operation;
@@ -4939,10 +4963,12 @@ static PyObject* clip(PyObject *self, PyObject *args)
   tree2paths(solution, result);
   return build_polygon_tuple(result, scaling);
 }
+RAISE_CXX_EXCEPTIONS
 
 //------------------------------------------------------------------------------
 
 static PyObject* offset(PyObject *self, PyObject *args)
+try
 {
   PyObject *polygons;
   const char *join;
@@ -5001,10 +5027,12 @@ static PyObject* offset(PyObject *self, PyObject *args)
   tree2paths(solution, result);
   return build_polygon_tuple(result, scaling);
 }
+RAISE_CXX_EXCEPTIONS
 
 //------------------------------------------------------------------------------
 
 static PyObject* inside(PyObject *self, PyObject *args)
+try
 {
   double scaling;
   short short_circuit;
@@ -5132,8 +5160,12 @@ static PyObject* inside(PyObject *self, PyObject *args)
 
   return result;
 }
+RAISE_CXX_EXCEPTIONS
+
+//------------------------------------------------------------------------------
 
 static PyObject* chop(PyObject *self, PyObject *args)
+try
 {
   PyObject *polygon, *positions;
   unsigned char axis;
@@ -5212,6 +5244,7 @@ static PyObject* chop(PyObject *self, PyObject *args)
   }
   return returntuple.release();
 }
+RAISE_CXX_EXCEPTIONS
 
 } // extern "C"
 
-- 
2.43.0


From 8af0deb5b800a89202b9c4cd77f27b823ce380b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:05 +0000
Subject: [PATCH 24/54] fix: point tests and slicing accept empty polygons and
 empty polygon sets

---
 gdspy/clipper.cpp | 52 ++++++++++++++++-------------------------------
 1 file changed, 18 insertions(+), 34 deletions(-)

diff --git a/gdspy/clipper.cpp b/gdspy/clipper.cpp
index 9399727..8bef80d 100644
--- a/gdspy/clipper.cpp
+++ b/gdspy/clipper.cpp
@@ -4893,8 +4893,15 @@ PyObject* build_polygon_tuple(Paths &polygons, double scaling)
 
 //------------------------------------------------------------------------------
 
+// The bounding box of an empty path contains nothing
 cInt bounding_box(Path& points, cInt* bb)
 {
+  if (points.empty())
+  {
+    bb[0] = bb[2] = hiRange;
+    bb[1] = bb[3] = -hiRange;
+    return 0;
+  }
   bb[0] = points[0].X;
   bb[1] = points[0].X;
   bb[2] = points[0].Y;
@@ -5052,33 +5059,25 @@ try
 
   unsigned long numgroups = groups.size();
   unsigned long numpolygons = polygons.size();
+  std::vector<cInt> bb_storage(4 * numpolygons);
   std::vector<cInt*> polygons_bb(numpolygons);
-  std::vector<double> polygons_bb_areas(numpolygons);
 
   // Pre-calculate the bounding boxes of the polygons
+  cInt all_bb[4] = {hiRange, -hiRange, hiRange, -hiRange};
   for (unsigned long p = 0; p < numpolygons; ++p)
   {
-    polygons_bb[p] = (cInt*) malloc(sizeof(cInt) * 4);
-    polygons_bb_areas[p] = bounding_box(polygons[p], polygons_bb[p]);
+    polygons_bb[p] = &bb_storage[4 * p];
+    bounding_box(polygons[p], polygons_bb[p]);
+    if (all_bb[0] > polygons_bb[p][0]) all_bb[0] = polygons_bb[p][0];
+    if (all_bb[1] < polygons_bb[p][1]) all_bb[1] = polygons_bb[p][1];
+    if (all_bb[2] > polygons_bb[p][2]) all_bb[2] = polygons_bb[p][2];
+    if (all_bb[3] < polygons_bb[p][3]) all_bb[3] = polygons_bb[p][3];
   }
 
   if (short_circuit == 0)
   {
     // No short-circuit
-    unsigned long numpoints = groups[0].size();
-    cInt all_bb[4];
-
-    all_bb[0] = polygons_bb[0][0];
-    all_bb[1] = polygons_bb[0][1];
-    all_bb[2] = polygons_bb[0][2];
-    all_bb[3] = polygons_bb[0][3];
-    for (unsigned long p = 1; p < numpolygons; ++p)
-    {
-      if (all_bb[0] > polygons_bb[p][0]) all_bb[0] = polygons_bb[p][0];
-      if (all_bb[1] < polygons_bb[p][1]) all_bb[1] = polygons_bb[p][1];
-      if (all_bb[2] > polygons_bb[p][2]) all_bb[2] = polygons_bb[p][2];
-      if (all_bb[3] < polygons_bb[p][3]) all_bb[3] = polygons_bb[p][3];
-    }
+    unsigned long numpoints = numgroups > 0 ? groups[0].size() : 0;
 
     result = PyTuple_New(numpoints);
     if (!result) return NULL;
@@ -5120,20 +5119,6 @@ try
   else
   {
     // Short-circuit: ALL
-    cInt all_bb[4];
-
-    all_bb[0] = polygons_bb[0][0];
-    all_bb[1] = polygons_bb[0][1];
-    all_bb[2] = polygons_bb[0][2];
-    all_bb[3] = polygons_bb[0][3];
-    for (unsigned long p = 1; p < numpolygons; ++p)
-    {
-      if (all_bb[0] > polygons_bb[p][0]) all_bb[0] = polygons_bb[p][0];
-      if (all_bb[1] < polygons_bb[p][1]) all_bb[1] = polygons_bb[p][1];
-      if (all_bb[2] > polygons_bb[p][2]) all_bb[2] = polygons_bb[p][2];
-      if (all_bb[3] < polygons_bb[p][3]) all_bb[3] = polygons_bb[p][3];
-    }
-
     result = PyTuple_New(numgroups);
     if (!result) return NULL;
 
@@ -5156,8 +5141,6 @@ try
     }
   }
 
-  for (unsigned long p = 0; p < numpolygons; ++p) free(polygons_bb[p]);
-
   return result;
 }
 RAISE_CXX_EXCEPTIONS
@@ -5185,7 +5168,8 @@ try
 
   if (parse_polygon(polygon, subj[0], scaling, true) != 0) return NULL;
 
-  bounding_box(subj[0], bb);
+  if (subj[0].empty()) bb[0] = bb[1] = bb[2] = bb[3] = 0;
+  else bounding_box(subj[0], bb);
   clip[0][0].X = clip[0][3].X = bb[0];
   clip[0][1].X = clip[0][2].X = bb[1];
   clip[0][0].Y = clip[0][1].Y = bb[2];
-- 
2.43.0


From e243c1ec0b8bb04b33ffdba6398b2db898b96520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:55 +0000
Subject: [PATCH 25/54] fix: linking a hole never reads past the end of the
 contour

---
 gdspy/clipper.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/gdspy/clipper.cpp b/gdspy/clipper.cpp
index 8bef80d..7511f3c 100644
--- a/gdspy/clipper.cpp
+++ b/gdspy/clipper.cpp
@@ -4797,6 +4797,9 @@ void link_holes(PolyNode *node, Paths &out)
     Path::iterator pprev = --result.end();
     Path::iterator pnext = result.begin();
     cInt xnew = 0;
+    // closest edge to the right, for when rounding leaves none to the left
+    Path::iterator p2 = result.end();
+    cInt xright = 0;
     for (; pnext != result.end(); pprev = pnext++)
     {
       if ((pnext->Y <= p->Y && p->Y < pprev->Y) || (pprev->Y < p->Y && p->Y <= pnext->Y))
@@ -4811,10 +4814,25 @@ void link_holes(PolyNode *node, Paths &out)
           p1 = pnext;
           break;
         }
+        if (x > p->X && (x < xright || p2 == result.end()))
+        {
+          xright = x;
+          p2 = pnext;
+        }
       }
     }
 
+    if (p1 == result.end())
+    {
+      p1 = p2;
+      xnew = xright;
+    }
     IntPoint pnew(xnew, p->Y);
+    if (p1 == result.end())
+    {
+      p1 = result.begin();
+      pnew = *p1;
+    }
     if (pnew.X != p1->X || pnew.Y != p1->Y) result.insert(p1, pnew);
     result.insert(p1, h->begin(), p+1);
     result.insert(p1, p, h->end());
-- 
2.43.0


From 83d4b42514511fa26b4acd2c71e1f921ccd0857a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:35 +0000
Subject: [PATCH 26/54] fix: intersections are not freed twice when clipping
 fails

---
 gdspy/clipper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gdspy/clipper.cpp b/gdspy/clipper.cpp
index 7511f3c..ab76f7f 100644
--- a/gdspy/clipper.cpp
+++ b/gdspy/clipper.cpp
@@ -2944,6 +2944,7 @@ void Clipper::ProcessIntersectList()
       IntersectEdges( iNode->Edge1, iNode->Edge2, iNode->Pt);
       SwapPositionsInAEL( iNode->Edge1 , iNode->Edge2 );
     }
+    m_IntersectList[i] = 0;
     delete iNode;
   }
   m_IntersectList.clear();
-- 
2.43.0


From 3a5676abd20078ff8299f6ed45f0627e302c6844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:47 +0000
Subject: [PATCH 27/54] fix: clipper does not lose memory when an allocation
 fails

---
 gdspy/clipper.cpp | 53 ++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 45 insertions(+), 8 deletions(-)

diff --git a/gdspy/clipper.cpp b/gdspy/clipper.cpp
index ab76f7f..44da3b3 100644
--- a/gdspy/clipper.cpp
+++ b/gdspy/clipper.cpp
@@ -1176,7 +1176,15 @@ bool ClipperBase::AddPath(const Path &pg, PolyType PolyTyp, bool Closed)
 	  return true;
   }
 
-  m_edges.push_back(edges);
+  try
+  {
+    m_edges.push_back(edges);
+  }
+  catch(...)
+  {
+    delete [] edges;
+    throw;
+  }
   bool leftBoundIsForward;
   TEdge* EMin = 0;
 
@@ -1366,6 +1374,7 @@ void ClipperBase::DisposeAllOutRecs(){
 void ClipperBase::DisposeOutRec(PolyOutList::size_type index)
 {
   OutRec *outRec = m_PolyOuts[index];
+  if (!outRec) return;
   if (outRec->Pts) DisposeOutPts(outRec->Pts);
   delete outRec;
   m_PolyOuts[index] = 0;
@@ -1387,14 +1396,15 @@ void ClipperBase::DeleteFromAEL(TEdge *e)
 
 OutRec* ClipperBase::CreateOutRec()
 {
+  m_PolyOuts.push_back(0);
   OutRec* result = new OutRec;
+  m_PolyOuts.back() = result;
   result->IsHole = false;
   result->IsOpen = false;
   result->FirstLeft = 0;
   result->Pts = 0;
   result->BottomPt = 0;
   result->PolyNd = 0;
-  m_PolyOuts.push_back(result);
   result->Idx = (int)m_PolyOuts.size() - 1;
   return result;
 }
@@ -1973,11 +1983,12 @@ void Clipper::CopyAELToSEL()
 
 void Clipper::AddJoin(OutPt *op1, OutPt *op2, const IntPoint OffPt)
 {
+  m_Joins.push_back(0);
   Join* j = new Join;
+  m_Joins.back() = j;
   j->OutPt1 = op1;
   j->OutPt2 = op2;
   j->OffPt = OffPt;
-  m_Joins.push_back(j);
 }
 //------------------------------------------------------------------------------
 
@@ -1999,11 +2010,12 @@ void Clipper::ClearGhostJoins()
 
 void Clipper::AddGhostJoin(OutPt *op, const IntPoint OffPt)
 {
+  m_GhostJoins.push_back(0);
   Join* j = new Join;
+  m_GhostJoins.back() = j;
   j->OutPt1 = op;
   j->OutPt2 = 0;
   j->OffPt = OffPt;
-  m_GhostJoins.push_back(j);
 }
 //------------------------------------------------------------------------------
 
@@ -2914,11 +2926,12 @@ void Clipper::BuildIntersectList(const cInt topY)
       {
         IntersectPoint(*e, *eNext, Pt);
         if (Pt.Y < topY) Pt = IntPoint(TopX(*e, topY), topY);
+        m_IntersectList.push_back(0);
         IntersectNode * newNode = new IntersectNode;
+        m_IntersectList.back() = newNode;
         newNode->Edge1 = e;
         newNode->Edge2 = eNext;
         newNode->Pt = Pt;
-        m_IntersectList.push_back(newNode);
 
         SwapPositionsInSEL(e, eNext);
         isModified = true;
@@ -3737,7 +3750,15 @@ void Clipper::JoinCommonEdges()
       //splitting one polygon into two.
       outRec1->Pts = join->OutPt1;
       outRec1->BottomPt = 0;
-      outRec2 = CreateOutRec();
+      try
+      {
+        outRec2 = CreateOutRec();
+      }
+      catch(...)
+      {
+        DisposeOutPts(join->OutPt2);
+        throw;
+      }
       outRec2->Pts = join->OutPt2;
 
       //update all OutRec2.Pts Idx's ...
@@ -3850,7 +3871,15 @@ void ClipperOffset::AddPath(const Path& path, JoinType joinType, EndType endType
   //strip duplicate points from path and also get index to the lowest point ...
   if (endType == etClosedLine || endType == etClosedPolygon)
     while (highI > 0 && path[0] == path[highI]) highI--;
-  newNode->Contour.reserve(highI + 1);
+  try
+  {
+    newNode->Contour.reserve(highI + 1);
+  }
+  catch(...)
+  {
+    delete newNode;
+    throw;
+  }
   newNode->Contour.push_back(path[0]);
   int j = 0, k = 0;
   for (int i = 1; i <= highI; i++)
@@ -3867,7 +3896,15 @@ void ClipperOffset::AddPath(const Path& path, JoinType joinType, EndType endType
     delete newNode;
     return;
   }
-  m_polyNodes.AddChild(*newNode);
+  try
+  {
+    m_polyNodes.AddChild(*newNode);
+  }
+  catch(...)
+  {
+    delete newNode;
+    throw;
+  }
 
   //if this path's lowest pt is lower than all the others then update m_lowest
   if (endType != etClosedPolygon) return;
-- 
2.43.0


From 50484a11632c6a88dab38a57c6e76fb7c9bfdc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:54 +0000
Subject: [PATCH 28/54] fix: deep copies of cells do not share the properties
 of references

---
 gdspy/library.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gdspy/library.py b/gdspy/library.py
index 66b573c..afa61fe 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -236,6 +236,8 @@ class Cell(object):
         new_cell.paths = libcopy.deepcopy(self.paths)
         new_cell.labels = libcopy.deepcopy(self.labels)
         new_cell.references = [libcopy.copy(ref) for ref in self.references]
+        for ref in new_cell.references:
+            ref.properties = libcopy.deepcopy(ref.properties)
 
         if transform:
             r = -1 if x_reflection else 1
-- 
2.43.0


From c1b3b490553bd30e43474ace038fba47f3a90226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:26 +0000
Subject: [PATCH 29/54] fix: transformed copies of cells keep the reflection of
 labels and references

---
 gdspy/library.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index afa61fe..6514cf0 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -261,7 +261,7 @@ class Cell(object):
                 path.transform(translation, rotation, scale, x_reflection)
 
             for lbl in new_cell.labels:
-                r0 = -1 if lbl.x_reflection is None else 1
+                r0 = -1 if lbl.x_reflection else 1
                 s0 = 1 if lbl.magnification is None else lbl.magnification
                 t0 = 0 if lbl.rotation is None else (lbl.rotation * numpy.pi / 180)
                 dx0, dy0 = lbl.position
@@ -278,7 +278,7 @@ class Cell(object):
                 lbl.x_reflection = r * r0 < 0
 
             for ref in new_cell.references:
-                r0 = -1 if ref.x_reflection is None else 1
+                r0 = -1 if ref.x_reflection else 1
                 s0 = 1 if ref.magnification is None else ref.magnification
                 t0 = 0 if ref.rotation is None else (ref.rotation * numpy.pi / 180)
                 dx0, dy0 = ref.origin
-- 
2.43.0


From 895e62708e8ac0e71e5cc65615b3d38df9b005da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:32 +0000
Subject: [PATCH 30/54] fix: fracturing never cuts along the boundary of a
 polygon forever

---
 gdspy/path.py    | 98 +++++++++++-------------------------------------
 gdspy/polygon.py | 72 ++++++++++++++++++++++-------------
 2 files changed, 67 insertions(+), 103 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index a10baef..23ffd5b 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -39,7 +39,7 @@ import struct
 
 from gdspy import clipper
 from gdspy.hobby import _hobby
-from gdspy.polygon import PolygonSet
+from gdspy.polygon import PolygonSet, _fracture_once
 
 _halfpi = 0.5 * numpy.pi
 _angle_dict = {"l": _halfpi, "r": -_halfpi, "ll": numpy.pi, "rr": -numpy.pi}
@@ -570,32 +570,14 @@ class FlexPath(object):
                         ii = 0
                         while ii < len(polygons):
                             if len(polygons[ii]) > self.max_points:
-                                pts0 = sorted(polygons[ii][:, 0])
-                                pts1 = sorted(polygons[ii][:, 1])
-                                ncuts = len(pts0) // self.max_points
-                                if pts0[-1] - pts0[0] > pts1[-1] - pts1[0]:
-                                    # Vertical cuts
-                                    cuts = [
-                                        pts0[int(i * len(pts0) / (ncuts + 1.0) + 0.5)]
-                                        for i in range(1, ncuts + 1)
-                                    ]
-                                    chopped = clipper._chop(
-                                        polygons[ii], cuts, 0, 1 / self.precision
-                                    )
-                                else:
-                                    # Horizontal cuts
-                                    cuts = [
-                                        pts1[int(i * len(pts1) / (ncuts + 1.0) + 0.5)]
-                                        for i in range(1, ncuts + 1)
-                                    ]
-                                    chopped = clipper._chop(
-                                        polygons[ii], cuts, 1, 1 / self.precision
-                                    )
-                                polygons.pop(ii)
-                                polygons.extend(
-                                    numpy.array(x)
-                                    for x in itertools.chain.from_iterable(chopped)
+                                pieces = _fracture_once(
+                                    polygons[ii], self.max_points, self.precision
                                 )
+                                if pieces is None:
+                                    ii += 1
+                                    continue
+                                polygons.pop(ii)
+                                polygons.extend(pieces)
                             else:
                                 ii += 1
                     key = (self.layers[kk], self.datatypes[kk])
@@ -895,32 +877,14 @@ class FlexPath(object):
                         ii = 0
                         while ii < len(polygons):
                             if len(polygons[ii]) > self.max_points:
-                                pts0 = sorted(polygons[ii][:, 0])
-                                pts1 = sorted(polygons[ii][:, 1])
-                                ncuts = len(pts0) // self.max_points
-                                if pts0[-1] - pts0[0] > pts1[-1] - pts1[0]:
-                                    # Vertical cuts
-                                    cuts = [
-                                        pts0[int(i * len(pts0) / (ncuts + 1.0) + 0.5)]
-                                        for i in range(1, ncuts + 1)
-                                    ]
-                                    chopped = clipper._chop(
-                                        polygons[ii], cuts, 0, 1 / self.precision
-                                    )
-                                else:
-                                    # Horizontal cuts
-                                    cuts = [
-                                        pts1[int(i * len(pts1) / (ncuts + 1.0) + 0.5)]
-                                        for i in range(1, ncuts + 1)
-                                    ]
-                                    chopped = clipper._chop(
-                                        polygons[ii], cuts, 1, 1 / self.precision
-                                    )
-                                polygons.pop(ii)
-                                polygons.extend(
-                                    numpy.array(x)
-                                    for x in itertools.chain.from_iterable(chopped)
+                                pieces = _fracture_once(
+                                    polygons[ii], self.max_points, self.precision
                                 )
+                                if pieces is None:
+                                    ii += 1
+                                    continue
+                                polygons.pop(ii)
+                                polygons.extend(pieces)
                             else:
                                 ii += 1
                     key = (self.layers[kk], self.datatypes[kk])
@@ -2149,32 +2113,14 @@ class RobustPath(object):
                     ii = 0
                     while ii < len(polygons):
                         if len(polygons[ii]) > self.max_points:
-                            pts0 = sorted(polygons[ii][:, 0])
-                            pts1 = sorted(polygons[ii][:, 1])
-                            ncuts = len(pts0) // self.max_points
-                            if pts0[-1] - pts0[0] > pts1[-1] - pts1[0]:
-                                # Vertical cuts
-                                cuts = [
-                                    pts0[int(i * len(pts0) / (ncuts + 1.0) + 0.5)]
-                                    for i in range(1, ncuts + 1)
-                                ]
-                                chopped = clipper._chop(
-                                    polygons[ii], cuts, 0, 1 / self.precision
-                                )
-                            else:
-                                # Horizontal cuts
-                                cuts = [
-                                    pts1[int(i * len(pts1) / (ncuts + 1.0) + 0.5)]
-                                    for i in range(1, ncuts + 1)
-                                ]
-                                chopped = clipper._chop(
-                                    polygons[ii], cuts, 1, 1 / self.precision
-                                )
-                            polygons.pop(ii)
-                            polygons.extend(
-                                numpy.array(x)
-                                for x in itertools.chain.from_iterable(chopped)
+                            pieces = _fracture_once(
+                                polygons[ii], self.max_points, self.precision
                             )
+                            if pieces is None:
+                                ii += 1
+                                continue
+                            polygons.pop(ii)
+                            polygons.extend(pieces)
                         else:
                             ii += 1
                 key = (layer, datatype)
diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index ab37ab3..73c8eae 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -45,6 +45,44 @@ _halfpi = 0.5 * numpy.pi
 _mpone = numpy.array((-1.0, 1.0))
 
 
+def _fracture_once(points, max_points, precision):
+    """
+    Slice a polygon with too many points in pieces.
+
+    Every cut must lie inside the polygon: cutting along its boundary
+    returns the same polygon, no matter how often it is repeated.
+
+    Parameters
+    ----------
+    points : array-like[N][2]
+        Vertices of the polygon.
+    max_points : integer
+        Maximal number of points in each resulting polygon.
+    precision : float
+        Desired precision for rounding vertice coordinates.
+
+    Returns
+    -------
+    out : list of arrays or None
+        Resulting pieces or None if the polygon is too small to be cut.
+    """
+    pts = [sorted(points[:, 0]), sorted(points[:, 1])]
+    # Vertical cuts if the polygon is wider than taller
+    axes = (0, 1) if pts[0][-1] - pts[0][0] > pts[1][-1] - pts[1][0] else (1, 0)
+    ncuts = len(points) // max_points
+    margin = 0.5 * precision
+    for axis in axes:
+        x = pts[axis]
+        cuts = [x[int(i * len(x) / (ncuts + 1.0) + 0.5)] for i in range(1, ncuts + 1)]
+        if not any(x[0] + margin < c < x[-1] - margin for c in cuts):
+            cuts = [0.5 * (x[0] + x[-1])]
+            if not x[0] + margin < cuts[0] < x[-1] - margin:
+                continue
+        chopped = clipper._chop(points, cuts, axis, 1 / precision)
+        return [numpy.array(p) for p in itertools.chain.from_iterable(chopped)]
+    return None
+
+
 class PolygonSet(object):
     """
     Set of polygonal objects.
@@ -346,36 +384,16 @@ class PolygonSet(object):
             ii = 0
             while ii < len(self.polygons):
                 if len(self.polygons[ii]) > max_points:
-                    pts0 = sorted(self.polygons[ii][:, 0])
-                    pts1 = sorted(self.polygons[ii][:, 1])
-                    ncuts = len(pts0) // max_points
-                    if pts0[-1] - pts0[0] > pts1[-1] - pts1[0]:
-                        # Vertical cuts
-                        cuts = [
-                            pts0[int(i * len(pts0) / (ncuts + 1.0) + 0.5)]
-                            for i in range(1, ncuts + 1)
-                        ]
-                        chopped = clipper._chop(
-                            self.polygons[ii], cuts, 0, 1 / precision
-                        )
-                    else:
-                        # Horizontal cuts
-                        cuts = [
-                            pts1[int(i * len(pts1) / (ncuts + 1.0) + 0.5)]
-                            for i in range(1, ncuts + 1)
-                        ]
-                        chopped = clipper._chop(
-                            self.polygons[ii], cuts, 1, 1 / precision
-                        )
+                    pieces = _fracture_once(self.polygons[ii], max_points, precision)
+                    if pieces is None:
+                        ii += 1
+                        continue
                     self.polygons.pop(ii)
                     layer = self.layers.pop(ii)
                     datatype = self.datatypes.pop(ii)
-                    self.polygons.extend(
-                        numpy.array(x) for x in itertools.chain.from_iterable(chopped)
-                    )
-                    npols = sum(len(c) for c in chopped)
-                    self.layers.extend(layer for _ in range(npols))
-                    self.datatypes.extend(datatype for _ in range(npols))
+                    self.polygons.extend(pieces)
+                    self.layers.extend(layer for _ in pieces)
+                    self.datatypes.extend(datatype for _ in pieces)
                 else:
                     ii += 1
         return self
-- 
2.43.0


From ef8c70065acd95c2c3b3f20796e0f97c29507ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:09 +0000
Subject: [PATCH 31/54] fix: label placement under references follows the
 reflection of the reference

---
 gdspy/library.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 6514cf0..3b99e78 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -1527,8 +1527,10 @@ class CellReference(object):
                         lbl.magnification *= self.magnification
                     else:
                         lbl.magnification = self.magnification
-                if self.x_reflection is not None:
+                if self.x_reflection:
                     lbl.x_reflection = not lbl.x_reflection
+                    if lbl.rotation is not None:
+                        lbl.rotation = -lbl.rotation
                 if self.rotation is not None:
                     if lbl.rotation is not None:
                         lbl.rotation += self.rotation
@@ -2163,8 +2165,10 @@ class CellArray(object):
                                 lbl.magnification *= self.magnification
                             else:
                                 lbl.magnification = self.magnification
-                        if self.x_reflection is not None:
+                        if self.x_reflection:
                             lbl.x_reflection = not lbl.x_reflection
+                            if lbl.rotation is not None:
+                                lbl.rotation = -lbl.rotation
                         if self.rotation is not None:
                             if lbl.rotation is not None:
                                 lbl.rotation += self.rotation
-- 
2.43.0


From f7e75cab38fead0738687214dbd998d880eeac59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:28 +0000
Subject: [PATCH 32/54] fix: scaling a path scales its end extensions and bend
 radii

---
 gdspy/path.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 23ffd5b..df5ea0d 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -1227,11 +1227,20 @@ class FlexPath(object):
         if self.width_transform or not self.gdsii_path:
             self.widths = self.widths * scale
         self.offsets = self.offsets * scale
+        self._scale_lengths(scale)
+        return self
+
+    def _scale_lengths(self, scale):
+        """
+        Scale the end extensions and bend radii of this path.
+        """
         for i, end in enumerate(self.ends):
             # CustomPlus created by bgnextn and endextn
             if isinstance(end, tuple):
                 self.ends[i] = tuple([e * scale for e in end])
-        return self
+        self.bend_radius = [
+            None if radius is None else radius * scale for radius in self.bend_radius
+        ]
 
     def transform(self, translation, rotation, scale, x_reflection, array_trans=None):
         """
@@ -1279,6 +1288,7 @@ class FlexPath(object):
             if self.width_transform or not self.gdsii_path:
                 self.widths = self.widths * scale
             self.offsets = self.offsets * scale
+            self._scale_lengths(scale)
         if x_reflection:
             cos[1] = -cos[1]
             sin[0] = -sin[0]
@@ -2462,6 +2472,7 @@ class RobustPath(object):
         if self.width_transform or not self.gdsii_path:
             self.widths = [wid * scale for wid in self.widths]
         self.offsets = [off * scale for off in self.offsets]
+        self._scale_ends(scale)
         for path in self.paths:
             for sub in path:
                 sub.scale(scale)
@@ -2514,6 +2525,7 @@ class RobustPath(object):
             if self.width_transform or not self.gdsii_path:
                 self.widths = [wid * scale for wid in self.widths]
             self.offsets = [off * scale for off in self.offsets]
+            self._scale_ends(scale)
             for path in self.paths:
                 for sub in path:
                     sub.scale(scale)
@@ -2531,6 +2543,15 @@ class RobustPath(object):
                     sub.translate(translation)
         return self
 
+    def _scale_ends(self, scale):
+        """
+        Scale the end extensions of this path.
+        """
+        self.ends = [
+            tuple([e * scale for e in end]) if isinstance(end, tuple) else end
+            for end in self.ends
+        ]
+
     def _parse_offset(self, arg, idx):
         if arg is None:
             return _func_const(self.offsets[idx])
-- 
2.43.0


From be7a83024883f123bce0153816821af0db641e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:28 +0000
Subject: [PATCH 33/54] fix: reflected RobustPath is exported with its width

---
 gdspy/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index df5ea0d..026d927 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -2216,7 +2216,7 @@ class RobustPath(object):
                     pathtype,
                     8,
                     0x0F03,
-                    sign * int(round(self.widths[ii] * multiplier)),
+                    sign * int(round(abs(self.widths[ii]) * multiplier)),
                 )
             )
             if pathtype == 4:
-- 
2.43.0


From be436e4b04a0d3a7d73032ac53a0adfbca9b62b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:17 +0000
Subject: [PATCH 34/54] fix: paths under reflected references keep the sides of
 their offsets

---
 gdspy/library.py | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 3b99e78..10bc14d 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -64,6 +64,21 @@ Globally disable add newly-created cells to the current_library.
 """
 
 
+def _transform_path(
+    path, translation, rotation, scale, x_reflection, array_trans=None
+):
+    """
+    Apply the transformation of a reference to a path.
+
+    A reflection exchanges the left and right sides of a path, which is
+    not taken into account by `FlexPath.transform`.
+    """
+    path.transform(translation, rotation, scale, x_reflection, array_trans)
+    if x_reflection and isinstance(path, FlexPath):
+        path.offsets = -path.offsets
+    return path
+
+
 class Cell(object):
     """
     Collection of polygons, paths, labels and raferences to other cells.
@@ -258,7 +273,7 @@ class Cell(object):
                     poly.translate(dx, dy)
 
             for path in new_cell.paths:
-                path.transform(translation, rotation, scale, x_reflection)
+                _transform_path(path, translation, rotation, scale, x_reflection)
 
             for lbl in new_cell.labels:
                 r0 = -1 if lbl.x_reflection else 1
@@ -1478,7 +1493,7 @@ class CellReference(object):
         else:
             rot = None
         return [
-            p.transform(trans, rot, self.magnification, self.x_reflection)
+            _transform_path(p, trans, rot, self.magnification, self.x_reflection)
             for p in self.ref_cell.get_paths(depth=depth)
         ]
 
@@ -2107,8 +2122,13 @@ class CellArray(object):
                 spc = numpy.array([self.spacing[0] * i, self.spacing[1] * j])
                 for path in paths:
                     array.append(
-                        libcopy.deepcopy(path).transform(
-                            trans, rot, self.magnification, self.x_reflection, spc
+                        _transform_path(
+                            libcopy.deepcopy(path),
+                            trans,
+                            rot,
+                            self.magnification,
+                            self.x_reflection,
+                            spc,
                         )
                     )
         return array
-- 
2.43.0


From b017b6748bed390ee8247964ad38dd25fe62b0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:15 +0000
Subject: [PATCH 35/54] fix: magnified arrays of RobustPath keep their spacing

---
 gdspy/path.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gdspy/path.py b/gdspy/path.py
index 026d927..3ac0c01 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -2509,6 +2509,8 @@ class RobustPath(object):
         """
         self._polygon_dict = None
         if array_trans is not None:
+            if scale is not None:
+                array_trans = array_trans / scale
             self.x = self.x + array_trans
             for path in self.paths:
                 for sub in path:
-- 
2.43.0


From 245727f63485924ca84ae812f8791c482bcf23c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:40 +0000
Subject: [PATCH 36/54] fix: end caps of reflected RobustPath are not crossed

---
 gdspy/path.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 3ac0c01..1faa518 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -2017,6 +2017,9 @@ class RobustPath(object):
                             p = path[i](u, 0)
                             v = -arm * path[i].grad(u, 0)
                             r = 0.5 * path[i].width(u)
+                            # Reflections exchange the arms of the path
+                            side = path[i](u, -arm) - path[i](u, arm)
+                            reflected = v[1] * side[0] - v[0] * side[1] < 0
                             if end == "round":
                                 np = max(
                                     5,
@@ -2034,10 +2037,10 @@ class RobustPath(object):
                                     + r
                                     * numpy.vstack((numpy.cos(ang), numpy.sin(ang))).T
                                 )
-                                poly.extend(endpts)
+                                poly.extend(endpts[::-1] if reflected else endpts)
                             else:
                                 v /= (v[0] ** 2 + v[1] ** 2) ** 0.5
-                                w = v[::-1] * _pmone
+                                w = v[::-1] * (-_pmone if reflected else _pmone)
                                 d = r if end == "extended" else end[u]
                                 poly.append(p + d * v + r * w)
                                 poly.append(p + d * v - r * w)
-- 
2.43.0


From 3e39068495d0cc542ad1d81fff65546d81f4c348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:10 +0000
Subject: [PATCH 37/54] fix: elements that appear more than once are copied and
 transformed independently

---
 gdspy/library.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 10bc14d..8fb393c 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -64,6 +64,14 @@ Globally disable add newly-created cells to the current_library.
 """
 
 
+def _copy_elements(elements):
+    """
+    Return a list of independent copies of all elements, even if some
+    of them are the same object.
+    """
+    return [libcopy.deepcopy(element) for element in elements]
+
+
 def _transform_path(
     path, translation, rotation, scale, x_reflection, array_trans=None
 ):
@@ -247,9 +255,9 @@ class Cell(object):
             new_cell.references = list(self.references)
             return new_cell
 
-        new_cell.polygons = libcopy.deepcopy(self.polygons)
-        new_cell.paths = libcopy.deepcopy(self.paths)
-        new_cell.labels = libcopy.deepcopy(self.labels)
+        new_cell.polygons = _copy_elements(self.polygons)
+        new_cell.paths = _copy_elements(self.paths)
+        new_cell.labels = _copy_elements(self.labels)
         new_cell.references = [libcopy.copy(ref) for ref in self.references]
         for ref in new_cell.references:
             ref.properties = libcopy.deepcopy(ref.properties)
@@ -745,7 +753,7 @@ class Cell(object):
             List containing the polygons in this cell and its
             references.
         """
-        polys = libcopy.deepcopy(self.polygons)
+        polys = _copy_elements(self.polygons)
         if depth is None or depth > 0:
             for reference in self.references:
                 if depth is None:
@@ -770,7 +778,7 @@ class Cell(object):
         out : list of `FlexPath` or `RobustPath`
             List containing the paths in this cell and its references.
         """
-        paths = libcopy.deepcopy(self.paths)
+        paths = _copy_elements(self.paths)
         if depth is None or depth > 0:
             for reference in self.references:
                 if depth is None:
@@ -798,7 +806,7 @@ class Cell(object):
         out : list of `Label`
             List containing the labels in this cell and its references.
         """
-        labels = libcopy.deepcopy(self.labels)
+        labels = _copy_elements(self.labels)
         if depth is None or depth > 0:
             for reference in self.references:
                 if depth is None:
-- 
2.43.0


From 4cce9d0f25cc2799e2ae78ff715ad2b74793ad96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 38/54] fix: failed construction steps leave paths and curves
 as they were

---
 gdspy/curve.py   | 39 +++++++++++++++++++++++++++++++++++++++
 gdspy/path.py    | 13 +++++++++----
 gdspy/polygon.py | 33 +++++++++++++++++++++++++++++++--
 3 files changed, 79 insertions(+), 6 deletions(-)

diff --git a/gdspy/curve.py b/gdspy/curve.py
index 4559be9..a7ad06b 100644
--- a/gdspy/curve.py
+++ b/gdspy/curve.py
@@ -31,10 +31,30 @@ else:
     # Now isinstance(s, basestring) will be True for any python version
     basestring = str
 
+import functools
 import numpy
 from gdspy.path import _func_bezier, _hobby
 
 
+def _all_or_nothing(method):
+    """
+    Decorate a `Curve` construction method so that the curve is left as
+    it was if the method fails.
+    """
+
+    @functools.wraps(method)
+    def wrapper(self, *args, **kwargs):
+        size, last_c, last_q = len(self.points), self.last_c, self.last_q
+        try:
+            return method(self, *args, **kwargs)
+        except BaseException:
+            del self.points[size:]
+            self.last_c, self.last_q = last_c, last_q
+            raise
+
+    return wrapper
+
+
 class Curve(object):
     """
     Generation of curves loosely based on SVG paths.
@@ -114,6 +134,7 @@ class Curve(object):
             return numpy.array(self.points[:-1])
         return numpy.array(self.points)
 
+    @_all_or_nothing
     def L(self, *xy):
         """
         Add straight line segments to the curve.
@@ -139,6 +160,7 @@ class Curve(object):
                 i += 2
         return self
 
+    @_all_or_nothing
     def l(self, *xy):
         """
         Add straight line segments to the curve.
@@ -166,6 +188,7 @@ class Curve(object):
                 i += 2
         return self
 
+    @_all_or_nothing
     def H(self, *x):
         """
         Add horizontal line segments to the curve.
@@ -185,6 +208,7 @@ class Curve(object):
         self.points.extend(numpy.array((xx, y0)) for xx in x)
         return self
 
+    @_all_or_nothing
     def h(self, *x):
         """
         Add horizontal line segments to the curve.
@@ -205,6 +229,7 @@ class Curve(object):
         self.points.extend(numpy.array((x0 + xx, y0)) for xx in x)
         return self
 
+    @_all_or_nothing
     def V(self, *y):
         """
         Add vertical line segments to the curve.
@@ -224,6 +249,7 @@ class Curve(object):
         self.points.extend(numpy.array((x0, yy)) for yy in y)
         return self
 
+    @_all_or_nothing
     def v(self, *y):
         """
         Add vertical line segments to the curve.
@@ -244,6 +270,7 @@ class Curve(object):
         self.points.extend(numpy.array((x0, y0 + yy)) for yy in y)
         return self
 
+    @_all_or_nothing
     def arc(self, radius, initial_angle, final_angle, rotation=0):
         """
         Add an elliptical arc to the curve.
@@ -293,6 +320,7 @@ class Curve(object):
         self.points.extend(xy for xy in pts)
         return self
 
+    @_all_or_nothing
     def C(self, *xy):
         """
         Add cubic Bezier curves to the curve.
@@ -340,6 +368,7 @@ class Curve(object):
         self.last_c = ctrl[2]
         return self
 
+    @_all_or_nothing
     def c(self, *xy):
         """
         Add cubic Bezier curves to the curve.
@@ -389,6 +418,7 @@ class Curve(object):
         self.last_c = ctrl[2]
         return self
 
+    @_all_or_nothing
     def S(self, *xy):
         """
         Add smooth cubic Bezier curves to the curve.
@@ -443,6 +473,7 @@ class Curve(object):
             self.last_c = ctrl[2]
         return self
 
+    @_all_or_nothing
     def s(self, *xy):
         """
         Add smooth cubic Bezier curves to the curve.
@@ -499,6 +530,7 @@ class Curve(object):
             self.last_c = ctrl[2]
         return self
 
+    @_all_or_nothing
     def Q(self, *xy):
         """
         Add quadratic Bezier curves to the curve.
@@ -545,6 +577,7 @@ class Curve(object):
         self.last_q = ctrl[1]
         return self
 
+    @_all_or_nothing
     def q(self, *xy):
         """
         Add quadratic Bezier curves to the curve.
@@ -593,6 +626,7 @@ class Curve(object):
         self.last_q = ctrl[1]
         return self
 
+    @_all_or_nothing
     def T(self, *xy):
         """
         Add smooth quadratic Bezier curves to the curve.
@@ -644,6 +678,7 @@ class Curve(object):
             self.last_q = ctrl[1]
         return self
 
+    @_all_or_nothing
     def t(self, *xy):
         """
         Add smooth quadratic Bezier curves to the curve.
@@ -697,6 +732,7 @@ class Curve(object):
             self.last_q = ctrl[1]
         return self
 
+    @_all_or_nothing
     def B(self, *xy):
         """
         Add a general degree Bezier curve.
@@ -740,6 +776,7 @@ class Curve(object):
         self.points.extend(xy for xy in fu[1:])
         return self
 
+    @_all_or_nothing
     def b(self, *xy):
         """
         Add a general degree Bezier curve.
@@ -785,6 +822,7 @@ class Curve(object):
         self.points.extend(xy for xy in fu[1:])
         return self
 
+    @_all_or_nothing
     def I(
         self,
         points,
@@ -869,6 +907,7 @@ class Curve(object):
             )
         return self.C(*args)
 
+    @_all_or_nothing
     def i(
         self,
         points,
diff --git a/gdspy/path.py b/gdspy/path.py
index 1faa518..708d54c 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -1697,10 +1697,15 @@ class FlexPath(object):
         else:
             points = numpy.vstack((self.points[-1:], points))
         cta, ctb = _hobby(points, angles, curl_start, curl_end, t_in, t_out, cycle)
-        for i in range(points.shape[0] - 1):
-            self.bezier((cta[i], ctb[i], points[i + 1]), width, offset, False)
-        if cycle:
-            self.bezier((cta[-1], ctb[-1], points[0]), width, offset, False)
+        state = (self.points, self.widths, self.offsets)
+        try:
+            for i in range(points.shape[0] - 1):
+                self.bezier((cta[i], ctb[i], points[i + 1]), width, offset, False)
+            if cycle:
+                self.bezier((cta[-1], ctb[-1], points[0]), width, offset, False)
+        except BaseException:
+            self._update(*state)
+            raise
         return self
 
 
diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index 73c8eae..59cd4d1 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -34,6 +34,7 @@ else:
 import struct
 import itertools
 import warnings
+import functools
 import numpy
 
 from gdspy import clipper
@@ -1037,6 +1038,28 @@ class Text(PolygonSet):
         )
 
 
+def _all_or_nothing(method):
+    """
+    Decorate a `Path` construction method so that the path is left as it
+    was if the method fails.
+    """
+
+    @functools.wraps(method)
+    def wrapper(self, *args, **kwargs):
+        state = (self.x, self.y, self.w, self.direction, self.distance, self.length)
+        sizes = (len(self.polygons), len(self.layers), len(self.datatypes))
+        try:
+            return method(self, *args, **kwargs)
+        except BaseException:
+            self.x, self.y, self.w, self.direction, self.distance, self.length = state
+            del self.polygons[sizes[0] :]
+            del self.layers[sizes[1] :]
+            del self.datatypes[sizes[2] :]
+            raise
+
+    return wrapper
+
+
 class Path(PolygonSet):
     """
     Series of geometric objects that form a path or a collection of
@@ -1244,6 +1267,7 @@ class Path(PolygonSet):
         self.direction = 2 * numpy.arctan2(vec[1], vec[0]) - self.direction
         return self
 
+    @_all_or_nothing
     def segment(
         self,
         length,
@@ -1353,6 +1377,7 @@ class Path(PolygonSet):
                 self.datatypes.extend(datatype for _ in range(self.n))
         return self
 
+    @_all_or_nothing
     def arc(
         self,
         radius,
@@ -1432,7 +1457,7 @@ class Path(PolygonSet):
                 "[GDSPY] Use of a floating number as number_of_points "
                 "is deprecated in favor of tolerance.",
                 category=DeprecationWarning,
-                stacklevel=2,
+                stacklevel=3,
             )
             tolerance = number_of_points
             number_of_points = None
@@ -1495,7 +1520,7 @@ class Path(PolygonSet):
                         warnings.warn(
                             "[GDSPY] Path arc with width larger than radius "
                             "created: possible self-intersecting polygon.",
-                            stacklevel=2,
+                            stacklevel=3,
                         )
                     self.polygons[-1][pts1:, 0] = numpy.cos(ang) * rad + cx
                     self.polygons[-1][pts1:, 1] = numpy.sin(ang) * rad + cy
@@ -1512,6 +1537,7 @@ class Path(PolygonSet):
                     self.datatypes.extend(datatype for _ in range(self.n))
         return self
 
+    @_all_or_nothing
     def turn(
         self,
         radius,
@@ -1619,6 +1645,7 @@ class Path(PolygonSet):
             self.direction = _directions_list[int(round(self.direction / _halfpi)) % 4]
         return self
 
+    @_all_or_nothing
     def parametric(
         self,
         curve_function,
@@ -1818,6 +1845,7 @@ class Path(PolygonSet):
             i0 = i1 - 1
         return self
 
+    @_all_or_nothing
     def bezier(
         self,
         points,
@@ -1906,6 +1934,7 @@ class Path(PolygonSet):
         )
         return self
 
+    @_all_or_nothing
     def smooth(
         self,
         points,
-- 
2.43.0


From b2ab0a3af7939b01cfc2c889cded3b4624925dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:20 +0000
Subject: [PATCH 39/54] fix: failed fracturing and filleting leave the polygons
 as they were

---
 gdspy/polygon.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index 59cd4d1..e8accff 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -84,6 +84,24 @@ def _fracture_once(points, max_points, precision):
     return None
 
 
+def _keep_on_failure(method):
+    """
+    Decorate a method that replaces polygons one by one, so that all of
+    them stay as they were if the method fails.
+    """
+
+    @functools.wraps(method)
+    def wrapper(self, *args, **kwargs):
+        state = (list(self.polygons), list(self.layers), list(self.datatypes))
+        try:
+            return method(self, *args, **kwargs)
+        except BaseException:
+            self.polygons, self.layers, self.datatypes = state
+            raise
+
+    return wrapper
+
+
 class PolygonSet(object):
     """
     Set of polygonal objects.
@@ -362,6 +380,7 @@ class PolygonSet(object):
                 path_area += 0.5 * abs(poly_area)
         return path_area
 
+    @_keep_on_failure
     def fracture(self, max_points=199, precision=1e-3):
         """
         Slice these polygons in the horizontal and vertical directions
@@ -399,6 +418,7 @@ class PolygonSet(object):
                     ii += 1
         return self
 
+    @_keep_on_failure
     def fillet(self, radius, points_per_2pi=128, max_points=199, precision=1e-3):
         """
         Round the corners of these polygons and fractures them into
-- 
2.43.0


From 4fab93d02223089c0d298f5f7499aac55d5429c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:46 +0000
Subject: [PATCH 40/54] fix: fracturing with a negative precision never ended

---
 gdspy/polygon.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index e8accff..817e7dc 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -67,6 +67,8 @@ def _fracture_once(points, max_points, precision):
     out : list of arrays or None
         Resulting pieces or None if the polygon is too small to be cut.
     """
+    # Reversed axes would turn the cuts around
+    precision = abs(precision)
     pts = [sorted(points[:, 0]), sorted(points[:, 1])]
     # Vertical cuts if the polygon is wider than taller
     axes = (0, 1) if pts[0][-1] - pts[0][0] > pts[1][-1] - pts[1][0] else (1, 0)
-- 
2.43.0


From a8809bdb28ee78eed1310f7738a4ad097a284ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:50 +0000
Subject: [PATCH 41/54] fix: zoom buttons of the viewer with nothing visible
 raised TypeError

---
 gdspy/viewer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gdspy/viewer.py b/gdspy/viewer.py
index bbb8aff..3a16f2e 100644
--- a/gdspy/viewer.py
+++ b/gdspy/viewer.py
@@ -885,6 +885,8 @@ class LayoutViewer(tkinter.Frame):
         self.canvas.x_rl *= s
         self.canvas.y_rl *= s
         bb = self.canvas.bbox(tkinter.ALL)
+        if bb is None:
+            return
         w = (bb[2] - bb[0]) * 1.2
         h = (bb[3] - bb[1]) * 1.2
         bb = (bb[0] - w, bb[1] - h, bb[2] + w, bb[3] + h)
@@ -909,6 +911,8 @@ class LayoutViewer(tkinter.Frame):
         self.canvas.x_rl *= s
         self.canvas.y_rl *= s
         bb = self.canvas.bbox(tkinter.ALL)
+        if bb is None:
+            return
         w = (bb[2] - bb[0]) * 1.2
         h = (bb[3] - bb[1]) * 1.2
         bb = (bb[0] - w, bb[1] - h, bb[2] + w, bb[3] + h)
-- 
2.43.0


From c87ec1a546276cba71326cf9cc428b70f3f87366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:50 +0000
Subject: [PATCH 42/54] fix: layers repeated in hidden_types of the viewer came
 back hidden

---
 gdspy/viewer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/viewer.py b/gdspy/viewer.py
index 3a16f2e..10c3387 100644
--- a/gdspy/viewer.py
+++ b/gdspy/viewer.py
@@ -219,7 +219,7 @@ class LayoutViewer(tkinter.Frame):
         self.depth = tkinter.IntVar()
         self.depth.set(depth)
 
-        self.hidden_layers = list(hidden_types)
+        self.hidden_layers = list(set(hidden_types))
 
         self.color = ColorDict(color.get("default", None))
         self.color.update(color)
-- 
2.43.0


From 673a2e4e8042a2deb1c401cb581c8af29092c7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:31 +0000
Subject: [PATCH 43/54] fix: zooming or scrolling sideways with the wheel also
 scrolled the view vertically

---
 gdspy/viewer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gdspy/viewer.py b/gdspy/viewer.py
index 10c3387..475a9b0 100644
--- a/gdspy/viewer.py
+++ b/gdspy/viewer.py
@@ -357,6 +357,10 @@ class LayoutViewer(tkinter.Frame):
             lambda evt: self.l_canvas.yview(tkinter.SCROLL, 1, tkinter.UNITS),
         )
 
+        # With control or shift, the bindings for all widgets (below) act alone
+        self.canvas.bind("<Shift-MouseWheel>", lambda evt: None)
+        self.canvas.bind("<Control-MouseWheel>", lambda evt: None)
+
         # X scroll: shift + scroll wheel
         self.bind_all(
             "<Shift-MouseWheel>",
-- 
2.43.0


From 5581c50ed94eaaa45cc1d80b01c8624a1de14164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:33 +0000
Subject: [PATCH 44/54] fix: colour or pattern chosen after a redraw did not
 reach the layer list of the viewer

---
 gdspy/viewer.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/gdspy/viewer.py b/gdspy/viewer.py
index 475a9b0..ea47cd2 100644
--- a/gdspy/viewer.py
+++ b/gdspy/viewer.py
@@ -534,9 +534,9 @@ class LayoutViewer(tkinter.Frame):
                         anchor="c",
                     ),
                 )
-                lbl[0].bind("<Button-1>", self._change_color(lbl[0], i))
-                lbl[0].bind("<Button-2>", self._change_pattern(lbl[0], i))
-                lbl[0].bind("<Button-3>", self._change_pattern(lbl[0], i))
+                lbl[0].bind("<Button-1>", self._change_color(i))
+                lbl[0].bind("<Button-2>", self._change_pattern(i))
+                lbl[0].bind("<Button-3>", self._change_pattern(i))
                 lbl[1].bind("<Button-1>", self._change_visibility(lbl[1], i))
                 lbl[1].bind("<Button-2>", self._change_other_visibility(i))
                 lbl[1].bind("<Button-3>", self._change_other_visibility(i))
@@ -698,14 +698,17 @@ class LayoutViewer(tkinter.Frame):
 
         return func
 
-    def _change_color(self, lbl, layer):
+    def _change_color(self, layer):
         def func(*args):
             rgb, color = tkinter.colorchooser.askcolor(
                 self.color[layer], title="Select color"
             )
             if color is not None:
                 self.color[layer] = color
-                lbl.configure(fg=color)
+                # The list may have been redrawn while the dialog was open
+                for l, _, lbl in self.l_canvas_info:
+                    if l == layer:
+                        lbl[0].configure(fg=color)
                 for i in self.canvas.find_withtag("L" + str(layer)):
                     self.canvas.itemconfigure(i, fill=color)
                     if layer[0] >= 0 and "TEXT" not in self.canvas.gettags(i):
@@ -713,7 +716,7 @@ class LayoutViewer(tkinter.Frame):
 
         return func
 
-    def _change_pattern(self, lbl, layer):
+    def _change_pattern(self, layer):
         def func(*args):
             pattern = []
             dlg = tkinter.Toplevel()
@@ -734,11 +737,14 @@ class LayoutViewer(tkinter.Frame):
             dlg.wait_window(dlg)
             if len(pattern) > 0:
                 self.pattern[layer] = pattern[0]
-                lbl.configure(
-                    bitmap=_icon_outline
-                    if pattern[0] == _invisible
-                    else _stipple[pattern[0]]
-                )
+                # The list may have been redrawn while the dialog was open
+                for l, _, lbl in self.l_canvas_info:
+                    if l == layer:
+                        lbl[0].configure(
+                            bitmap=_icon_outline
+                            if pattern[0] == _invisible
+                            else _stipple[pattern[0]]
+                        )
                 for i in self.canvas.find_withtag("L" + str(layer)):
                     if "TEXT" not in self.canvas.gettags(i):
                         self.canvas.itemconfigure(i, stipple=_stipple[pattern[0]])
-- 
2.43.0


From c92bc40a304ce2d46bdc540d5a29144cd4dc579b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:33 +0000
Subject: [PATCH 45/54] fix: viewer windows smaller than their margins mirrored
 the view or raised ZeroDivisionError

---
 gdspy/viewer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gdspy/viewer.py b/gdspy/viewer.py
index ea47cd2..ae784b9 100644
--- a/gdspy/viewer.py
+++ b/gdspy/viewer.py
@@ -415,6 +415,9 @@ class LayoutViewer(tkinter.Frame):
         else:
             width = float(self.canvas.winfo_width()) - self.canvas_margins[0]
             height = float(self.canvas.winfo_height()) - self.canvas_margins[1]
+        # The window can be smaller than its margins
+        width = max(1.0, width)
+        height = max(1.0, height)
         self.shown_cell = self.current_cell.get()
         if self.cell_bb[self.current_cell.get()] is None:
             bb = [1e300, 1e300, -1e300, -1e300]
@@ -965,10 +968,12 @@ class LayoutViewer(tkinter.Frame):
                 self.canvas.ruler = None
         else:
             x1 = float(self.canvas.winfo_width()) - self.canvas_margins[0]
+            x1 = max(1.0, x1)
             sx = float(self.canvas.canvasx(evt.x))
             dx = abs(self.canvas.x_zr - sx)
             sx += self.canvas.x_zr
             y1 = float(self.canvas.winfo_height()) - self.canvas_margins[1]
+            y1 = max(1.0, y1)
             sy = float(self.canvas.canvasy(evt.y))
             dy = abs(self.canvas.y_zr - sy)
             sy += self.canvas.y_zr
-- 
2.43.0


From 1266991a9bcb19d0937e2daccdf2ce1a407dfbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:33 +0000
Subject: [PATCH 46/54] fix: viewing a cell that covers a single point failed

---
 gdspy/viewer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gdspy/viewer.py b/gdspy/viewer.py
index ae784b9..d9a6163 100644
--- a/gdspy/viewer.py
+++ b/gdspy/viewer.py
@@ -436,6 +436,9 @@ class LayoutViewer(tkinter.Frame):
         if bb[2] < bb[0]:
             tkinter.messagebox.showwarning("Warning", "The selected cell is empty.")
             bb = [-1, -1, 1, 1]
+        elif bb[2] == bb[0] and bb[3] == bb[1]:
+            # A single point
+            bb = [bb[0] - 1, bb[1] - 1, bb[2] + 1, bb[3] + 1]
         self.scale = ((bb[3] - bb[1]) / height, (bb[2] - bb[0]) / width)
         if self.scale[0] > self.scale[1]:
             self.scale = self.scale[0] * 1.05
-- 
2.43.0


From ecad28c3ee2bd3d6f77c77a677e174055f2c0b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:48 +0000
Subject: [PATCH 47/54] fix: zooming while dragging moved the corner of the
 zoom rectangle

---
 gdspy/viewer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gdspy/viewer.py b/gdspy/viewer.py
index d9a6163..7f66fdc 100644
--- a/gdspy/viewer.py
+++ b/gdspy/viewer.py
@@ -393,6 +393,8 @@ class LayoutViewer(tkinter.Frame):
         self.shown_cell = None
         self.shown_depth = depth
         self.canvas_margins = None
+        self.canvas.x_zr = 0
+        self.canvas.y_zr = 0
         self._update_canvas()
         self.master.title("Gdspy - Layout Viewer")
         self.mainloop()
@@ -885,6 +887,8 @@ class LayoutViewer(tkinter.Frame):
         self.canvas.scale(tkinter.ALL, 0, 0, s, s)
         self.canvas.x_rl *= s
         self.canvas.y_rl *= s
+        self.canvas.x_zr *= s
+        self.canvas.y_zr *= s
         bb = self.canvas.bbox(tkinter.ALL)
         if bb is not None:
             w = (bb[2] - bb[0]) * 1.2
-- 
2.43.0


From ad1d22c0ec29845884f5ab538585463f791ede9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:22 +0000
Subject: [PATCH 48/54] fix: extents of the viewer were those of an earlier
 reference level

---
 gdspy/viewer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gdspy/viewer.py b/gdspy/viewer.py
index 7f66fdc..09a73df 100644
--- a/gdspy/viewer.py
+++ b/gdspy/viewer.py
@@ -408,6 +408,8 @@ class LayoutViewer(tkinter.Frame):
         if d != self.shown_depth:
             self.shown_cell = self.current_cell.get()
             self.shown_depth = d
+            # Bounding boxes stand for the references below this level
+            self.cell_bb = dict([(s, None) for s in self.cells])
             self._update_data()
 
     def _update_canvas(self, *args):
-- 
2.43.0


From 99948bb900f6b71ac10fa744db36047f215381a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:02 +0000
Subject: [PATCH 49/54] fix: raising a layer over one without polygons failed
 in the viewer

---
 gdspy/viewer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gdspy/viewer.py b/gdspy/viewer.py
index 09a73df..6bb55a9 100644
--- a/gdspy/viewer.py
+++ b/gdspy/viewer.py
@@ -488,7 +488,11 @@ class LayoutViewer(tkinter.Frame):
                 lbl_dict[key].append(label)
             else:
                 lbl_dict[key] = [label]
-        layers = list(set(list(pol_dict.keys()) + list(lbl_dict.keys())))
+        # A specification can have no polygons left to show
+        layers = list(
+            set([key for key, pols in pol_dict.items() if len(pols) > 0])
+            | set(lbl_dict.keys())
+        )
         layers.sort(
             reverse=True, key=lambda i: (-1, -1) if not isinstance(i, tuple) else i
         )
-- 
2.43.0


From 907e897593635d9093c641c61b0cae6f748f9dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:59 +0000
Subject: [PATCH 50/54] fix: listing layers, datatypes or texttypes failed with
 an unresolved reference

---
 gdspy/library.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 8fb393c..b7bf985 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -505,7 +505,8 @@ class Cell(object):
         for element in itertools.chain(self.polygons, self.paths):
             layers.update(element.layers)
         for reference in self.references:
-            layers.update(reference.ref_cell.get_layers())
+            if isinstance(reference.ref_cell, Cell):
+                layers.update(reference.ref_cell.get_layers())
         for label in self.labels:
             layers.add(label.layer)
         return layers
@@ -523,7 +524,8 @@ class Cell(object):
         for element in itertools.chain(self.polygons, self.paths):
             datatypes.update(element.datatypes)
         for reference in self.references:
-            datatypes.update(reference.ref_cell.get_datatypes())
+            if isinstance(reference.ref_cell, Cell):
+                datatypes.update(reference.ref_cell.get_datatypes())
         return datatypes
 
     def get_texttypes(self):
@@ -537,7 +539,8 @@ class Cell(object):
         """
         texttypes = set()
         for reference in self.references:
-            texttypes.update(reference.ref_cell.get_texttypes())
+            if isinstance(reference.ref_cell, Cell):
+                texttypes.update(reference.ref_cell.get_texttypes())
         for label in self.labels:
             texttypes.add(label.texttype)
         return texttypes
-- 
2.43.0


From a8cc79ce089a4912637ed17efbcb8c6d10b76df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:36 +0000
Subject: [PATCH 51/54] fix: scaled copies of a cell kept the spacing of its
 arrays

---
 gdspy/library.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gdspy/library.py b/gdspy/library.py
index b7bf985..92a10eb 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -316,6 +316,8 @@ class Cell(object):
                 if ref.magnification == 1:
                     ref.magnification = None
                 ref.x_reflection = r * r0 < 0
+                if scale is not None and isinstance(ref, CellArray):
+                    ref.spacing = (s * ref.spacing[0], s * ref.spacing[1])
 
         return new_cell
 
-- 
2.43.0


From 8e5f4ef5113c91e72e0b7af81c5fcf35185f672e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:07 +0000
Subject: [PATCH 52/54] fix: slice accepted a sequence of positions whose
 length overflows

---
 gdspy/clipper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gdspy/clipper.cpp b/gdspy/clipper.cpp
index 44da3b3..3c52d85 100644
--- a/gdspy/clipper.cpp
+++ b/gdspy/clipper.cpp
@@ -5238,6 +5238,7 @@ try
   }
   num_cuts = PySequence_Length(positions);
   if (num_cuts < 0) return NULL;
+  if (num_cuts == PY_SSIZE_T_MAX) return PyErr_NoMemory();
 
   Owned returntuple(PyTuple_New(num_cuts + 1));
   if (returntuple.obj == NULL) return NULL;
-- 
2.43.0


From 11ef20d4e85ce4f145f237bf8050a9c268786cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:13 +0000
Subject: [PATCH 53/54] fix: RobustPath.turn starts from the direction the path
 has after transformations, also around -x

---
 gdspy/path.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 708d54c..aeb1c49 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -2748,13 +2748,13 @@ class RobustPath(object):
                 "empty RobustPath."
             )
         angle = _angle_dict.get(angle, angle)
-        initial_angle = 0
+        directions = []
         for p in self.paths:
-            v = p[i].grad(1, 0, False)
-            initial_angle += numpy.arctan2(v[1], v[0])
-        initial_angle = initial_angle / len(self.paths) + (
-            _halfpi if angle < 0 else -_halfpi
-        )
+            v = p[i].grad(1, 0)
+            directions.append(numpy.arctan2(v[1], v[0]))
+        # Directions around (-1, 0) have angles close to both -pi and pi
+        directions = numpy.unwrap(directions)
+        initial_angle = directions.mean() + (_halfpi if angle < 0 else -_halfpi)
         self.arc(radius, initial_angle, initial_angle + angle, width, offset)
         return self
 
-- 
2.43.0


From 3e91432e4d9dbbd871453ae9144445b7cac59073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:20 +0000
Subject: [PATCH 54/54] fix: sections added to a reflected RobustPath are not
 crossed

---
 gdspy/path.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index aeb1c49..77679ba 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -2525,7 +2525,7 @@ class RobustPath(object):
                     sub.translate(array_trans)
         if x_reflection:
             self.x = numpy.array((self.x[0], -self.x[1]))
-            self.widths = [wid * -1 for wid in self.widths]
+            self.widths = [wid * -1.0 for wid in self.widths]
             self.offsets = [off * -1 for off in self.offsets]
             for path in self.paths:
                 for sub in path:
@@ -2582,13 +2582,13 @@ class RobustPath(object):
                     stacklevel=4,
                 )
             return _func_const(self.widths[idx])
-        elif hasattr(arg, "__getitem__"):
-            if callable(arg[idx]):
-                return arg[idx]
-            return _func_linear(self.widths[idx], arg[idx])
-        elif callable(arg):
-            return arg
-        return _func_linear(self.widths[idx], arg)
+        if hasattr(arg, "__getitem__"):
+            arg = arg[idx]
+        # The sides of a reflected path are exchanged: its width is negative
+        sign = numpy.copysign(1.0, self.widths[idx])
+        if callable(arg):
+            return arg if sign > 0 else lambda u: -arg(u)
+        return _func_linear(self.widths[idx], sign * arg)
 
     def _append(self, x, f, df, width, offset):
         """
-- 
2.43.0

