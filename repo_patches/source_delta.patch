From 6bebb9260220cb8d180c91df472ffaf3483bbf6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:26 +0000
Subject: [PATCH 01/15] fix: gravity at observation points in line with an edge
 (domain error, NaN)

---
 geec/polyhedron.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/geec/polyhedron.py b/geec/polyhedron.py
index 3c2dc67..5d59a75 100644
--- a/geec/polyhedron.py
+++ b/geec/polyhedron.py
@@ -204,15 +204,16 @@ class Edge:
             R1, R2 = (self.points[0] - obs, self.points[1] - obs)
             r1, r2 = (np.linalg.norm(R1), np.linalg.norm(R2))
 
-            chsgn = 1  # if origin,p1 & p2 are on a st line
-            if r1 > r2 and np.dot(R1, R2) / (r1 * r2) == 1:  # p1 farther than p2
-                R1 = R2  # interchange p1,p2
-                r1 = r2
-                chsgn = -1
-
             Lj = self.vector
             lj = self.length
 
+            chsgn = 1
+            if np.dot(R2, Lj) < 0:  # observation point is past p2
+                # interchange p1,p2: otherwise cj vanishes (up to round-off errors)
+                # when origin, p1 & p2 are on a st line
+                R1, r1, Lj = R2, r2, -Lj
+                chsgn = -1
+
             # bj = 2 Rj.Lj
             bj = 2 * np.dot(R1, Lj)
             b2 = bj / lj / 2
@@ -230,7 +231,7 @@ class Edge:
 
             # change sign of I if p1,p2 were interchanged
             self._pqr = pqr * chsgn
-            self._dpqr = dpqr
+            self._dpqr = dpqr if dpqr is None else dpqr * chsgn
             # assign twin value
             self._set_twin_pqr()
 
-- 
2.43.0


From d510043f5500afb357e32f13494070e6095629fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:29 +0000
Subject: [PATCH 02/15] fix: gravity gradient and domain error at observation
 points in the plane of a face

---
 geec/polyhedron.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/geec/polyhedron.py b/geec/polyhedron.py
index 5d59a75..d238096 100644
--- a/geec/polyhedron.py
+++ b/geec/polyhedron.py
@@ -409,9 +409,10 @@ class Face:
 
         self._omega = 0
         self._domega = np.zeros(3)
-        if abs(self._dp1) > epsilon:
-            points = self.points - obs  # [p1,p2,p3]
-            dots = np.dot(self.un, points.T)  # [un.p1, un.p2, un.p3]
+        points = self.points - obs  # [p1,p2,p3]
+        # below this distance (round-off errors) observation point is in face's plane
+        dp1_min = 100 * epsilon * np.linalg.norm(points, axis=1).max()
+        if abs(self._dp1) > dp1_min:
             cross = [
                 cross_product(points[i], points[(i + 1) % self.npoints])
                 for i in range(self.npoints)
@@ -433,7 +434,7 @@ class Face:
             w = 0
             dw = 0
             for i in range(self.npoints):
-                inout = dots[i]
+                inout = self._dp1  # un.p1 = un.p2 = un.p3
                 (A1, A2) = self._get_A1A2(i, inout, self.npoints, unitv)
                 perp = self._get_perp(i, inout, self.npoints, points, A1)
                 b = self._get_b(A1, A2)
@@ -492,7 +493,8 @@ class Face:
     @staticmethod
     # @jit(nopython=True)
     def _get_b(A1: np.ndarray, A2: np.ndarray) -> float:
-        return np.dot(A1, A2)
+        # cosine: keep round-off errors out of acos and sqrt
+        return min(1.0, max(-1.0, np.dot(A1, A2)))
 
     @staticmethod
     # @jit(nopython=True)
-- 
2.43.0


From 658d17313709b354f6af96c5b9956b75e755e563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:34 +0000
Subject: [PATCH 03/15] fix: do not reuse intermediate values after a failed
 computation

---
 geec/polyhedron.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/geec/polyhedron.py b/geec/polyhedron.py
index d238096..959023f 100644
--- a/geec/polyhedron.py
+++ b/geec/polyhedron.py
@@ -998,14 +998,15 @@ class Polyhedron:
         # self.set_origin(coord)
         T = np.zeros((3, 3))
 
-        for face in self.faces:
-            (g, t) = face.get_gravity(coord, density, Gc, gradient)
-            G += g
-            T += t
-
-        # reset intermediate variables, and shift back origin
-        # self.reset_origin(coord)
-        self.reset(coord)
+        try:
+            for face in self.faces:
+                (g, t) = face.get_gravity(coord, density, Gc, gradient)
+                G += g
+                T += t
+        finally:
+            # reset intermediate variables, and shift back origin
+            # self.reset_origin(coord)
+            self.reset(coord)
 
         return (G, T)
 
-- 
2.43.0


From 44545c2e781abb0dbba22a37a25c0fa5718d0192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:38 +0000
Subject: [PATCH 04/15] fix: use density and gravity constant of each mass body

---
 geec/cli.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geec/cli.py b/geec/cli.py
index df90a73..ce85a4d 100644
--- a/geec/cli.py
+++ b/geec/cli.py
@@ -65,9 +65,6 @@ def run(
     # assess Polyhedron of each mass bodies
     p = [Polyhedron(mass.dataset.coords) for mass in masses]
 
-    density = masses[0].density
-    Gc = masses[0].gravity_constant
-
     # observation points
     observer = geec.observer.get_observer(config)
     observer.to_wgs84()
@@ -78,7 +75,10 @@ def run(
 
     def add_gravity(row):
         s = Station(np.array(row))
-        s.compute_gravity(p, density, Gc, gradient=gradient)
+        for poly, mass in zip(p, masses, strict=True):
+            s.compute_gravity(
+                poly, mass.density, mass.gravity_constant, gradient=gradient
+            )
         listG = s.G
         listT = s.T.flatten()[
             [0, 1, 2, 4, 5, 8]
-- 
2.43.0


From 24728fcd9ad75a708c43877e736a3ba8c740aa0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:42 +0000
Subject: [PATCH 05/15] fix: compute gravity of geographic observers in the
 coordinates system of the masses

---
 geec/cli.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/geec/cli.py b/geec/cli.py
index ce85a4d..f9a4807 100644
--- a/geec/cli.py
+++ b/geec/cli.py
@@ -73,6 +73,10 @@ def run(
     obs_name = observer.coords_name
     obs_unit = observer.coords_unit
 
+    # stations must be in the same coordinates system as mass bodies
+    observer.to_ecef()
+    stations = observer.dataset.coords
+
     def add_gravity(row):
         s = Station(np.array(row))
         for poly, mass in zip(p, masses, strict=True):
@@ -85,7 +89,7 @@ def run(
         ]  # "txx", "txy", "txz", "tyy", "tyz", "tzz"
         return np.concatenate([listG, listT])
 
-    listGT = np.apply_along_axis(add_gravity, axis=1, arr=obs_points)
+    listGT = np.apply_along_axis(add_gravity, axis=1, arr=stations)
     G_name = ["Gx", "Gy", "Gz"]
     G_unit = ["(mGal)", "(mGal)", "(mGal)"]
     T_name = ["txx", "txy", "txz", "tyy", "tyz", "tzz"]
-- 
2.43.0


From 431c2e8e0defdd542ad189318e05d86d52cfd0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:47 +0000
Subject: [PATCH 06/15] fix: do not treat local ENU coordinates as longitude
 and latitude

---
 geec/crs.py     | 4 ++++
 geec/dataset.py | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/geec/crs.py b/geec/crs.py
index cefde8e..61be839 100644
--- a/geec/crs.py
+++ b/geec/crs.py
@@ -262,6 +262,10 @@ def ellipsoid_height(
 
     Height value assume to be orthometric height
     """
+    if crs.vdatum == VDatumEnum.ELLPS:
+        # already ellipsoid height (also, ENU points are no longitude, latitude)
+        return points, crs
+
     logger.info("Convert points altitude to ellipsoid height")
     func = VDATUMREF[crs.vdatum]
     positions = [pgeo.ellipsoidalKarney.LatLon(lt, ln) for ln, lt, h in points]
diff --git a/geec/dataset.py b/geec/dataset.py
index ea20e8c..e382666 100644
--- a/geec/dataset.py
+++ b/geec/dataset.py
@@ -41,10 +41,10 @@ class Dataset:
         """Convert longitude to -180°..180°,
         depending on coordinates reference system.
 
-        Note: for Cartesian or ECEF coordinate system, do nothing.
+        Note: for ENU, Cartesian or ECEF coordinate system, do nothing.
         """
         CRS_LON180 = {
-            geec.crs.CRSEnum.ENU: geec.crs.wrap180,
+            geec.crs.CRSEnum.ENU: lambda x: x,
             geec.crs.CRSEnum.ELLPS: geec.crs.wrap180,
             geec.crs.CRSEnum.ECEF: lambda x: x,
             geec.crs.CRSEnum.CART: lambda x: x,
-- 
2.43.0


From 340416d38283747b6ae014c35d1f773fbe62a270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:50 +0000
Subject: [PATCH 07/15] fix: accept documented vertical datum name egm2008

---
 geec/crs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geec/crs.py b/geec/crs.py
index 61be839..a3cfaa4 100644
--- a/geec/crs.py
+++ b/geec/crs.py
@@ -35,6 +35,7 @@ class VDatumEnum(StrEnum):
     EGM84 = "egm84"
     EGM96 = "egm96"
     EGM08 = "egm2008"
+    EGM2008 = "egm2008"  # alias, name used in configuration file
 
 
 EllModelEnum = Enum("EllModelEnum", pm.Ellipsoid.models)
-- 
2.43.0


From 8cf65b88d9e2b4f196a2d3c3f0b03800729339ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:55 +0000
Subject: [PATCH 08/15] fix: read integer coordinates as float (geoid height
 could not be added)

---
 geec/dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geec/dataset.py b/geec/dataset.py
index e382666..e1a2def 100644
--- a/geec/dataset.py
+++ b/geec/dataset.py
@@ -120,12 +120,12 @@ class Dataset:
 def _read_coords(config: Subview) -> npt.NDArray[np.float64]:
     if config["points"]:
         coords = config["points"].get()
-        return np.array(coords)
+        return np.array(coords, dtype=np.float64)
     elif config["file_path"]:
         file_path = Path(str(config["file_path"].get(str)))
         if file_path.is_file():
             df = pd.read_csv(file_path, sep=",", header=None)
-            return df.values
+            return df.to_numpy(dtype=np.float64)
         else:
             msg = f"File {file_path} not found"
             logger.error(msg)
-- 
2.43.0


From 747fc4c13b53decf64102f85d5747c3b71846ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:18 +0000
Subject: [PATCH 09/15] fix: gravity on a face, next to an edge of its
 triangulation (log of a negative number)

---
 geec/polyhedron.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/geec/polyhedron.py b/geec/polyhedron.py
index 959023f..3a47682 100644
--- a/geec/polyhedron.py
+++ b/geec/polyhedron.py
@@ -217,13 +217,17 @@ class Edge:
             # bj = 2 Rj.Lj
             bj = 2 * np.dot(R1, Lj)
             b2 = bj / lj / 2
-            if abs(r1 + b2) < epsilon:  # r1 + b2 == 0
+            # cj = R1 + bj/(2*lj)
+            cj = r1 + b2
+            if b2 < 0:
+                # same value, free from cancellation when the edge is close
+                cross = cross_product(R1, Lj)
+                cj = np.dot(cross, cross) / (lj * lj) / (r1 - b2)
+            if abs(cj) < epsilon:  # r1 + b2 == 0
                 # observation point and edge are in line
                 Lj, bj = -Lj, -bj
                 b2 = bj / lj / 2
-
-            # cj = R1 + bj/(2*lj)
-            cj = r1 + b2
+                cj = r1 + b2
 
             (pqr, dpqr) = self._line_integral_along_edge(
                 cj, Lj, lj, R1, r1, b2, bj, gradient
-- 
2.43.0


From ee0f67e7567efa6ff3ca2330810c8929aeacfe13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:40 +0000
Subject: [PATCH 10/15] fix: convert points of any ellipsoid to ENU (they were
 taken as WGS84)

---
 geec/crs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geec/crs.py b/geec/crs.py
index a3cfaa4..8e09813 100644
--- a/geec/crs.py
+++ b/geec/crs.py
@@ -427,6 +427,9 @@ def wgs84_to_enu(
     #     logger.error(msg)
     #     raise ValueError(msg)
 
+    # points may be on another ellipsoid (do nothing for WGS84)
+    points, crs = ellps_to_wgs84(points, crs)
+
     logger.info("Convert points from WGS84 ellipsoid to ENU coorindates.")
     lon, lat, alt = points.T
     e, n, u = pm.geodetic2enu(lat, lon, alt, lat0, lon0, alt0)
-- 
2.43.0


From 7109025d0ca43d83649289cd5720ce7007101364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:25 +0000
Subject: [PATCH 11/15] fix: converting one dataset no longer relabels others
 that share its coordinates system

---
 geec/crs.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/geec/crs.py b/geec/crs.py
index 8e09813..1d779bb 100644
--- a/geec/crs.py
+++ b/geec/crs.py
@@ -6,6 +6,7 @@
 
 # --- import -----------------------------------
 # import from standard lib
+import copy
 import importlib.resources as resources
 from dataclasses import dataclass, field
 from enum import Enum, StrEnum
@@ -275,7 +276,8 @@ def ellipsoid_height(
     # ellipsoid height (from GPS) = orthometric height + geoid height
     points.T[2] += geoh
 
-    # update coordinates reference system
+    # update coordinates reference system (may be shared with other datasets)
+    crs = copy.copy(crs)
     crs.vdatum = VDatumEnum.ELLPS
 
     return points, crs
@@ -291,7 +293,8 @@ def ellps_to_ecef(
 
     points = np.array([x, y, z]).T
 
-    # update coordinates reference system
+    # update coordinates reference system (may be shared with other datasets)
+    crs = copy.copy(crs)
     crs.name = CRSEnum.ECEF
     crs.ellps = None
     crs.enu = None
@@ -316,7 +319,8 @@ def enu_to_ecef(
 
     points = np.array([x, y, z]).T
 
-    # update coordinates reference system
+    # update coordinates reference system (may be shared with other datasets)
+    crs = copy.copy(crs)
     crs.name = CRSEnum.ECEF
     crs.ellps = None
     crs.enu = None
@@ -342,7 +346,8 @@ def ecef_to_wgs84(
 
     points = np.array([lon, lat, alt]).T
 
-    # update coordinates reference system
+    # update coordinates reference system (may be shared with other datasets)
+    crs = copy.copy(crs)
     crs.name = CRSEnum.ELLPS
     crs.ellps = _WGS84_
     crs.enu = None
@@ -399,7 +404,8 @@ def ecef_to_enu(
 
     points = np.array([e, n, u]).T
 
-    # update coordinates reference system
+    # update coordinates reference system (may be shared with other datasets)
+    crs = copy.copy(crs)
     crs.name = CRSEnum.ENU
     crs.enu = ENU(
         ellps=_WGS84_,
@@ -436,7 +442,8 @@ def wgs84_to_enu(
 
     points = np.array([e, n, u]).T
 
-    # update coordinates reference system
+    # update coordinates reference system (may be shared with other datasets)
+    crs = copy.copy(crs)
     crs.name = CRSEnum.ENU
     crs.enu = ENU(
         ellps=_WGS84_,
-- 
2.43.0


From a2d4de0a807dfa0ed7fce52e8784cfe155865f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:48 +0000
Subject: [PATCH 12/15] fix: gravity gradient at observation points in the
 plane of a thin face (solid angle off by 4 pi)

---
 geec/polyhedron.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geec/polyhedron.py b/geec/polyhedron.py
index 3a47682..eb902e9 100644
--- a/geec/polyhedron.py
+++ b/geec/polyhedron.py
@@ -440,7 +440,9 @@ class Face:
             for i in range(self.npoints):
                 inout = self._dp1  # un.p1 = un.p2 = un.p3
                 (A1, A2) = self._get_A1A2(i, inout, self.npoints, unitv)
-                perp = self._get_perp(i, inout, self.npoints, points, A1)
+                # simplices are triangles: no angle exceeds pi (near the face's plane, the
+                # sign of perp is meaningless because of round-off errors)
+                perp = abs(self._get_perp(i, inout, self.npoints, points, A1))
                 b = self._get_b(A1, A2)
 
                 angle = self._get_angle(i, inout, b, perp)
-- 
2.43.0


From 335bfd0a83adb0ababdf73089a59f5d2a5b6a271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:46 +0000
Subject: [PATCH 13/15] fix: read coordinates of a grid of integers as float
 (geoid height could not be added)

---
 geec/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geec/dataset.py b/geec/dataset.py
index e1a2def..9a52182 100644
--- a/geec/dataset.py
+++ b/geec/dataset.py
@@ -138,7 +138,7 @@ def _read_coords(config: Subview) -> npt.NDArray[np.float64]:
         z_start, z_end, z_step = grid["zstart_zend_zstep"].get(list)
 
         g = np.mgrid[x_start:x_end:x_step, y_start:y_end:y_step, z_start:z_end:z_step]
-        return np.transpose(g.reshape(len(g), -1))
+        return np.transpose(g.reshape(len(g), -1)).astype(np.float64)
     else:
         msg = "Points must be a list of points or a file"
         logger.error(msg)
-- 
2.43.0


From 50474d4225abbd30221f6f492e1f3edd0752c576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:25 +0000
Subject: [PATCH 14/15] fix: convert points on Earth's axis among others to
 WGS84

---
 geec/crs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/geec/crs.py b/geec/crs.py
index 1d779bb..bc421ad 100644
--- a/geec/crs.py
+++ b/geec/crs.py
@@ -342,6 +342,8 @@ def ecef_to_wgs84(
 
     logger.info("Convert points cooridnates from ECEF to WGS84 ellipsoid")
     x, y, z = points.T
+    # pymap3d fails on arrays with points on Earth's axis: move those by a nanometre
+    x = np.where(np.hypot(x, y) < 1e-9, 1e-9, x)
     lat, lon, alt = pm.ecef2geodetic(x, y, z)  # by default to 'wgs84'
 
     points = np.array([lon, lat, alt]).T
-- 
2.43.0


From ebc00fd92a23a157d39935debeccec09cecdfb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:19 +0000
Subject: [PATCH 15/15] fix: refuse points that are not of shape (N,3) (arrays
 of three dimensions crash Qhull)

---
 geec/polyhedron.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geec/polyhedron.py b/geec/polyhedron.py
index eb902e9..48c8217 100644
--- a/geec/polyhedron.py
+++ b/geec/polyhedron.py
@@ -811,9 +811,11 @@ class Polyhedron:
         """
         logger.trace("initialise Polyhedron")
         # check points list of coordinates
-        # TODO: check np.ndarray shape (N,3)
         if not isinstance(points, np.ndarray):
             raise KeyError("'points' must be a numpy array")
+        elif points.ndim != 2 or points.shape[1] != 3:
+            # Qhull crashes on arrays with more dimensions
+            raise KeyError("'points' must be an array of shape (N,3)")
         else:
             self.points = points
 
-- 
2.43.0

