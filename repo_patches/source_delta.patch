From 6020f901737fe196ef75bfc7824dc1ed419b9753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:17 +0000
Subject: [PATCH 01/10] fix: ground queries at an index must use that index

non_point_shaded_surfaces_at and non_point_illum_surfaces_at ignored idx
and always returned the surfaces of timestep 0.
---
 pvfactors/geometry/pvground.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvfactors/geometry/pvground.py b/pvfactors/geometry/pvground.py
index f336c2a..1890317 100644
--- a/pvfactors/geometry/pvground.py
+++ b/pvfactors/geometry/pvground.py
@@ -522,7 +522,7 @@ class TsGround(object):
         """
         list_surfaces = []
         for shadow_el in self.shadow_elements:
-            list_surfaces += shadow_el.non_point_surfaces_at(0)
+            list_surfaces += shadow_el.non_point_surfaces_at(idx)
         return list_surfaces
 
     def non_point_illum_surfaces_at(self, idx):
@@ -540,7 +540,7 @@ class TsGround(object):
         """
         list_surfaces = []
         for illum_el in self.illum_elements:
-            list_surfaces += illum_el.non_point_surfaces_at(0)
+            list_surfaces += illum_el.non_point_surfaces_at(idx)
         return list_surfaces
 
     def non_point_surfaces_at(self, idx):
-- 
2.43.0


From d14fab924446d867ec3b3b96975db9cc1caf8736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:17 +0000
Subject: [PATCH 02/10] fix: do not overwrite the view factors when building
 AOI view factors

build_ts_vf_aoi_matrix wrote the AOI values into self.vf_matrix in place,
which is also pvarray.ts_vf_matrix.
---
 pvfactors/viewfactors/calculator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvfactors/viewfactors/calculator.py b/pvfactors/viewfactors/calculator.py
index aa8e844..59e5048 100644
--- a/pvfactors/viewfactors/calculator.py
+++ b/pvfactors/viewfactors/calculator.py
@@ -153,7 +153,7 @@ class VFCalculator(object):
         n_ts_surfaces = pvarray.n_ts_surfaces
         vf_aoi_matrix = np.zeros(
             (n_ts_surfaces + 1, n_ts_surfaces + 1, n_steps),
-            dtype=float) if self.vf_matrix is None else self.vf_matrix
+            dtype=float) if self.vf_matrix is None else self.vf_matrix.copy()
 
         # Get timeseries objects
         ts_ground = pvarray.ts_ground
-- 
2.43.0


From 6cd764f4228a160a08b067e8d5b5bade1e87578a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:17 +0000
Subject: [PATCH 03/10] fix: subtracting a segment that strictly contains
 another leaves nothing

difference(u, v) returned u when u was strictly inside v.
---
 pvfactors/geometry/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pvfactors/geometry/utils.py b/pvfactors/geometry/utils.py
index 8025768..ab29187 100644
--- a/pvfactors/geometry/utils.py
+++ b/pvfactors/geometry/utils.py
@@ -67,6 +67,9 @@ def difference(u, v):
             return LineString([ub1, vb2])
         else:
             return u
+    elif v_contains_ub1 and v_contains_ub2:
+        # u is strictly inside v
+        return LineString()
     else:
         return u
 
-- 
2.43.0


From 207afe932bf4a38d9c1508e359a05c77cc69cb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:24 +0000
Subject: [PATCH 04/10] fix: count direct light through modules on isotropic
 shaded fronts

The total irradiance of shaded front surfaces left out the direct light
passing through transparent or spaced modules, unlike the hybrid model
and the ground.
---
 pvfactors/irradiance/models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvfactors/irradiance/models.py b/pvfactors/irradiance/models.py
index 904c44c..8a97f1f 100644
--- a/pvfactors/irradiance/models.py
+++ b/pvfactors/irradiance/models.py
@@ -180,7 +180,8 @@ class IsotropicOrdered(BaseModel):
         self.total_perez['front_illum_pvrow'] = perez_front_pvrow['poa_global']
         self.total_perez['front_shaded_pvrow'] = (
             self.total_perez['front_illum_pvrow']
-            - self.direct['front_illum_pvrow'])
+            - self.direct['front_illum_pvrow']
+            + self.direct['front_shaded_pvrow'])
         self.total_perez['ground_shaded'] = (self.DHI
                                              + self.direct['ground_shaded'])
 
-- 
2.43.0


From 135ac1da10b9c574e1035a2a25803101461fb906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:08 +0000
Subject: [PATCH 05/10] fix: cut the shaded surface of a fully shaded segment

contains() took any point to be on an empty geometry (shapely's distance
to an empty geometry is 0), so cutting a segment with no illuminated
surface did nothing.
---
 pvfactors/geometry/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvfactors/geometry/utils.py b/pvfactors/geometry/utils.py
index ab29187..524f7cb 100644
--- a/pvfactors/geometry/utils.py
+++ b/pvfactors/geometry/utils.py
@@ -76,7 +76,8 @@ def difference(u, v):
 
 def contains(linestring, point, tol_distance=DISTANCE_TOLERANCE):
     """Fixing floating point errors obtained in shapely for contains"""
-    return linestring.distance(point) < tol_distance
+    # the distance to an empty geometry is 0
+    return not linestring.is_empty and linestring.distance(point) < tol_distance
 
 
 def is_collinear(list_elements):
-- 
2.43.0


From 95a6d7bfa3d3146214df126f4e8f6e89ea8eb357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:08 +0000
Subject: [PATCH 06/10] fix: cast a shadow spanning an already shaded gap

The intersection with the illuminated surfaces then has several parts and
reading its coordinates raised NotImplementedError.
---
 pvfactors/geometry/base.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pvfactors/geometry/base.py b/pvfactors/geometry/base.py
index 4cc7d1d..0d2cc6d 100644
--- a/pvfactors/geometry/base.py
+++ b/pvfactors/geometry/base.py
@@ -703,11 +703,15 @@ class PVSegment(GeometryCollection):
         if not intersection.is_empty:
             # Split up only if interesects the illuminated collection
             # print(intersection)
-            self._shaded_collection.add_linestring(intersection,
-                                                   normal_vector=self.n_vector)
-            # print(self._shaded_collection.length)
-            self._illum_collection.remove_linestring(intersection)
-            # print(self._illum_collection.length)
+            n_vector = self.n_vector
+            # There are several parts when the linestring spans an already
+            # shaded gap
+            for part in getattr(intersection, 'geoms', [intersection]):
+                self._shaded_collection.add_linestring(part,
+                                                       normal_vector=n_vector)
+                # print(self._shaded_collection.length)
+                self._illum_collection.remove_linestring(part)
+                # print(self._illum_collection.length)
             super(PVSegment, self).__init__([self._shaded_collection,
                                              self._illum_collection])
 
-- 
2.43.0


From 40a01dc829dc0030f814e0aad7d93a30c7d0f9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:08 +0000
Subject: [PATCH 07/10] fix: do not share default shade collections between PV
 segments

The default collections were created once, so a shadow cast on one segment
built with a default collection appeared on all of them.
---
 pvfactors/geometry/base.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pvfactors/geometry/base.py b/pvfactors/geometry/base.py
index 0d2cc6d..8ac5572 100644
--- a/pvfactors/geometry/base.py
+++ b/pvfactors/geometry/base.py
@@ -609,8 +609,8 @@ class PVSegment(GeometryCollection):
     call basic geometrical methods and properties on it, eg call length, etc.
     """
 
-    def __init__(self, illum_collection=ShadeCollection(shaded=False),
-                 shaded_collection=ShadeCollection(shaded=True), index=None):
+    def __init__(self, illum_collection=None, shaded_collection=None,
+                 index=None):
         """Initialize PV segment.
 
         Parameters
@@ -626,6 +626,10 @@ class PVSegment(GeometryCollection):
         index : int, optional
             Index of the PV segment (Default = None)
         """
+        if illum_collection is None:
+            illum_collection = ShadeCollection(shaded=False)
+        if shaded_collection is None:
+            shaded_collection = ShadeCollection(shaded=True)
         assert shaded_collection.shaded, "surface should be shaded"
         assert not illum_collection.shaded, "surface should not be shaded"
         self._check_collinear(illum_collection, shaded_collection)
-- 
2.43.0


From 27047996b070921ddd9304e64dde73c7b60e1308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:08 +0000
Subject: [PATCH 08/10] fix: list the current surfaces after casting shadows
 and cutting

all_surfaces was cached at the first access, so later shadows and cuts did
not show in it.
---
 pvfactors/geometry/base.py  | 18 ++++++------------
 pvfactors/geometry/pvrow.py |  7 +------
 2 files changed, 7 insertions(+), 18 deletions(-)

diff --git a/pvfactors/geometry/base.py b/pvfactors/geometry/base.py
index 8ac5572..7e413d5 100644
--- a/pvfactors/geometry/base.py
+++ b/pvfactors/geometry/base.py
@@ -636,7 +636,6 @@ class PVSegment(GeometryCollection):
         self._shaded_collection = shaded_collection
         self._illum_collection = illum_collection
         self.index = index
-        self._all_surfaces = None
         super(PVSegment, self).__init__([self._shaded_collection,
                                          self._illum_collection])
 
@@ -921,11 +920,8 @@ class PVSegment(GeometryCollection):
         list of :py:class:`~pvfactors.geometry.base.PVSurface`
             PV surfaces in the PV segment
         """
-        if self._all_surfaces is None:
-            self._all_surfaces = []
-            self._all_surfaces += self._illum_collection.list_surfaces
-            self._all_surfaces += self._shaded_collection.list_surfaces
-        return self._all_surfaces
+        return (self._illum_collection.list_surfaces
+                + self._shaded_collection.list_surfaces)
 
 
 class BaseSide(GeometryCollection):
@@ -943,7 +939,6 @@ class BaseSide(GeometryCollection):
         list_segments = [] if list_segments is None else list_segments
         check_collinear(list_segments)
         self.list_segments = tuple(list_segments)
-        self._all_surfaces = None
         super(BaseSide, self).__init__(list_segments)
 
     @classmethod
@@ -1016,11 +1011,10 @@ class BaseSide(GeometryCollection):
     @property
     def all_surfaces(self):
         """List of all surfaces in the Side object."""
-        if self._all_surfaces is None:
-            self._all_surfaces = []
-            for segment in self.list_segments:
-                self._all_surfaces += segment.all_surfaces
-        return self._all_surfaces
+        all_surfaces = []
+        for segment in self.list_segments:
+            all_surfaces += segment.all_surfaces
+        return all_surfaces
 
     @property
     def surface_indices(self):
diff --git a/pvfactors/geometry/pvrow.py b/pvfactors/geometry/pvrow.py
index 66fe966..2a61f4a 100644
--- a/pvfactors/geometry/pvrow.py
+++ b/pvfactors/geometry/pvrow.py
@@ -695,7 +695,6 @@ class PVRow(GeometryCollection):
         self.back = back_side
         self.index = index
         self.original_linestring = original_linestring
-        self._all_surfaces = None
         super(PVRow, self).__init__([self.front, self.back])
 
     @classmethod
@@ -832,11 +831,7 @@ class PVRow(GeometryCollection):
     @property
     def all_surfaces(self):
         """List of all the surfaces in the PV row."""
-        if self._all_surfaces is None:
-            self._all_surfaces = []
-            self._all_surfaces += self.front.all_surfaces
-            self._all_surfaces += self.back.all_surfaces
-        return self._all_surfaces
+        return self.front.all_surfaces + self.back.all_surfaces
 
     @property
     def surface_indices(self):
-- 
2.43.0


From 00b1f8faa0379bbc45a76bcc57112b74228e67c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:47 +0000
Subject: [PATCH 09/10] fix: forget the view factor matrices of previous inputs
 when re-fitting

---
 pvfactors/geometry/pvarray.py       | 3 +++
 pvfactors/viewfactors/calculator.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pvfactors/geometry/pvarray.py b/pvfactors/geometry/pvarray.py
index a8cecbb..5bf47cf 100644
--- a/pvfactors/geometry/pvarray.py
+++ b/pvfactors/geometry/pvarray.py
@@ -149,6 +149,9 @@ class OrderedPVArray(BasePVArray):
         """
 
         self.n_states = len(solar_zenith)
+        # View factors calculated for previous inputs do not apply anymore
+        self.ts_vf_matrix = None
+        self.ts_vf_aoi_matrix = None
         # Calculate rotation angles
         rotation_vec = _get_rotation_from_tilt_azimuth(
             surface_azimuth, self.axis_azimuth, surface_tilt)
diff --git a/pvfactors/viewfactors/calculator.py b/pvfactors/viewfactors/calculator.py
index 59e5048..aeaec96 100644
--- a/pvfactors/viewfactors/calculator.py
+++ b/pvfactors/viewfactors/calculator.py
@@ -63,6 +63,9 @@ class VFCalculator(object):
         n_timestamps : int
             Number of simulation timestamps
         """
+        # Matrices saved for previous inputs do not apply anymore
+        self.vf_matrix = None
+        self.vf_aoi_matrix = None
         if self.vf_aoi_methods is not None:
             self.vf_aoi_methods.fit(n_timestamps)
 
-- 
2.43.0


From 05dbdc063feaacdcb4fd416befc9044c17a2c923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:26 +0000
Subject: [PATCH 10/10] fix: keep the shadow left of an element with only point
 surfaces when merging

---
 pvfactors/geometry/pvground.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pvfactors/geometry/pvground.py b/pvfactors/geometry/pvground.py
index 1890317..4a21829 100644
--- a/pvfactors/geometry/pvground.py
+++ b/pvfactors/geometry/pvground.py
@@ -704,6 +704,10 @@ class TsGround(object):
         if self.flag_overlap is not None:
             # Get the overlap flags
             is_overlap = self.flag_overlap[idx]
+            # The cut points can leave an element with only point surfaces
+            non_pt_shadow_elements = [
+                shadow_el for shadow_el in non_pt_shadow_elements
+                if shadow_el.non_point_surfaces_at(idx)]
             n_shadow_elements = len(non_pt_shadow_elements)
             if is_overlap and (n_shadow_elements > 1):
                 # If there's only one shadow, not point in going through this
-- 
2.43.0

