From efa57b4577e681d4fc6559e3d5ad0df5bbdea155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:54 +0000
Subject: [PATCH 01/56] fix: imageFromCamera must not change its argument or
 lose points exactly beside a panoramic camera

---
 cameratransform/projection.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/cameratransform/projection.py b/cameratransform/projection.py
index 67c3425..049c753 100644
--- a/cameratransform/projection.py
+++ b/cameratransform/projection.py
@@ -395,7 +395,8 @@ class RectilinearProjection(CameraProjection):
             x_im = f_x * --- + offset_x      y_im = f_y * --- + offset_y
                           z                                z
         """
-        points = ensure_array_format(points, "...x3")
+        # copy the points to not change the array of the caller
+        points = np.array(ensure_array_format(points, "...x3"), dtype=float)
         # set small z distances to 0
         points[np.abs(points[..., 2]) < 1e-10] = 0
         x, y, z = points.T
@@ -472,9 +473,10 @@ class CylindricalProjection(CameraProjection):
                                  (-z )                               sqrt(x**2+z**2)
         """
         # ensure that the points are provided as an array
-        points = ensure_array_format(points, "...x3")
+        # and copy the points to not change the array of the caller
+        points = np.array(ensure_array_format(points, "...x3"), dtype=float)
         # set small z distances to 0
-        points[np.abs(points[..., 2]) < 1e-10] = 0
+        points[np.abs(points[..., 2]) < 1e-10, 2] = 0
         x, y, z = points.T
         # transform the points
         with np.errstate(divide='ignore', invalid='ignore'):
@@ -550,9 +552,10 @@ class EquirectangularProjection(CameraProjection):
                                ( z )                                    (sqrt(x**2+z**2))
         """
         # ensure that the points are provided as an array
-        points = ensure_array_format(points, "...x3")
+        # and copy the points to not change the array of the caller
+        points = np.array(ensure_array_format(points, "...x3"), dtype=float)
         # set small z distances to 0
-        points[np.abs(points[..., 2]) < 1e-10] = 0
+        points[np.abs(points[..., 2]) < 1e-10, 2] = 0
         x, y, z = points.T
         # transform the points
         transformed_points = np.array(
-- 
2.43.0


From ae85c396f08b4ab54dfef83391be5bfef3c033b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:54 +0000
Subject: [PATCH 02/56] fix: ray_intersect_triangle returns nan for all
 coordinates when a ray hits no triangle

---
 cameratransform/ray.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cameratransform/ray.py b/cameratransform/ray.py
index 4554e4d..f63a026 100644
--- a/cameratransform/ray.py
+++ b/cameratransform/ray.py
@@ -93,6 +93,8 @@ def ray_intersect_triangle(origin, direction, triangle, use_planes=False):
 
     index = nanargmin(rI, axis=0)
     rI = rI[index, np.arange(len(index))]
+    # rays that do not hit any triangle
+    rI[np.isinf(rI)] = np.nan
     point = origin + rI[..., None] * direction
 
     if return_single:
-- 
2.43.0


From fd1befb1827c95066bdbe2adbc5d5281738d9141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:54 +0000
Subject: [PATCH 03/56] fix: spaceFromGPS keeps the heights of a batch of two
 points

---
 cameratransform/gps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/gps.py b/cameratransform/gps.py
index b07d937..e8b9555 100644
--- a/cameratransform/gps.py
+++ b/cameratransform/gps.py
@@ -459,7 +459,7 @@ def moveDistance(start, distance, bearing):
 
 
 def spaceFromGPS(gps, gps0):
-    if len(gps[..., :]) == 2:
+    if gps.shape[-1] == 2:
         height = np.zeros_like(gps[..., 0])
     else:
         height = gps[..., 2]
-- 
2.43.0


From ff535b6c6fcba905f977d7650cc71bd3a0eba77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:54 +0000
Subject: [PATCH 04/56] fix: moveDistance does not return nan when it ends at a
 pole

---
 cameratransform/gps.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cameratransform/gps.py b/cameratransform/gps.py
index e8b9555..3c05cb5 100644
--- a/cameratransform/gps.py
+++ b/cameratransform/gps.py
@@ -448,8 +448,9 @@ def moveDistance(start, distance, bearing):
     R = 6371e3
     if start.shape[-1] == 3:
         R += start[..., 2]
-    lat2 = np.arcsin(np.sin(lat1) * np.cos(distance / R) +
-                     np.cos(lat1) * np.sin(distance / R) * np.cos(bearing))
+    # clip to ignore rounding errors at the poles
+    lat2 = np.arcsin(np.clip(np.sin(lat1) * np.cos(distance / R) +
+                             np.cos(lat1) * np.sin(distance / R) * np.cos(bearing), -1, 1))
 
     lon2 = lon1 + np.arctan2(np.sin(bearing) * np.sin(distance / R) * np.cos(lat1),
                              np.cos(distance / R) - np.sin(lat1) * np.sin(lat2))
-- 
2.43.0


From 96fd31b575800119ca15c648c23ad179827318dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:54 +0000
Subject: [PATCH 05/56] fix: setGPSpos with a point keeps plain numbers and the
 elevation argument

---
 cameratransform/camera.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index b5d4765..4b07824 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -503,7 +503,11 @@ class Camera(ClassWithParameterSet):
         else:
             # if it is a tuple
             try:
-                lat, lon, elevation = gps.splitGPS(lat, keep_deg=True)
+                lat, lon, height = gps.splitGPS(lat, keep_deg=True)
+                # convert the array elements to plain numbers
+                lat, lon = float(lat), float(lon)
+                if height is not None:
+                    elevation = float(height)
             # or if it is just a single value
             except (AttributeError, Exception):
                 pass
-- 
2.43.0


From ec8e9056b864000fef60bed0974c078a0306f269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:54 +0000
Subject: [PATCH 06/56] fix: save can store numpy numbers and does not destroy
 an existing file when it fails

---
 cameratransform/camera.py          | 4 +++-
 cameratransform/lens_distortion.py | 4 +++-
 cameratransform/projection.py      | 4 +++-
 cameratransform/spatial.py         | 4 +++-
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 4b07824..8a88cc7 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -1550,8 +1550,10 @@ class Camera(ClassWithParameterSet):
         elif isinstance(self.lens, BrownLensDistortion):
             export_dict["lens"] = BROWNLENSDISTORTION
 
+        # convert before opening the file, so that an existing file is not destroyed if the conversion fails
+        text = json.dumps(export_dict, indent=4, default=float)
         with open(filename, "w") as fp:
-            fp.write(json.dumps(export_dict, indent=4))
+            fp.write(text)
 
     def load(self, filename: str):
         """
diff --git a/cameratransform/lens_distortion.py b/cameratransform/lens_distortion.py
index 3dc2588..3f74903 100644
--- a/cameratransform/lens_distortion.py
+++ b/cameratransform/lens_distortion.py
@@ -64,8 +64,10 @@ class LensDistortion(ClassWithParameterSet):  # pragma: no cover
     def save(self, filename):
         keys = self.parameters.parameters.keys()
         export_dict = {key: getattr(self, key) for key in keys}
+        # convert before opening the file, so that an existing file is not destroyed if the conversion fails
+        text = json.dumps(export_dict, default=float)
         with open(filename, "w") as fp:
-            fp.write(json.dumps(export_dict))
+            fp.write(text)
 
     def load(self, filename):
         with open(filename, "r") as fp:
diff --git a/cameratransform/projection.py b/cameratransform/projection.py
index 049c753..d2a05d8 100644
--- a/cameratransform/projection.py
+++ b/cameratransform/projection.py
@@ -210,8 +210,10 @@ class CameraProjection(ClassWithParameterSet):
     def save(self, filename):
         keys = self.parameters.parameters.keys()
         export_dict = {key: getattr(self, key) for key in keys if key != "focallength_px"}
+        # convert before opening the file, so that an existing file is not destroyed if the conversion fails
+        text = json.dumps(export_dict, default=float)
         with open(filename, "w") as fp:
-            fp.write(json.dumps(export_dict))
+            fp.write(text)
 
     def load(self, filename):
         with open(filename, "r") as fp:
diff --git a/cameratransform/spatial.py b/cameratransform/spatial.py
index e1ab01c..30a04f0 100644
--- a/cameratransform/spatial.py
+++ b/cameratransform/spatial.py
@@ -205,8 +205,10 @@ class SpatialOrientation(ClassWithParameterSet):
     def save(self, filename):
         keys = self.parameters.parameters.keys()
         export_dict = {key: getattr(self, key) for key in keys}
+        # convert before opening the file, so that an existing file is not destroyed if the conversion fails
+        text = json.dumps(export_dict, default=float)
         with open(filename, "w") as fp:
-            fp.write(json.dumps(export_dict))
+            fp.write(text)
 
     def load(self, filename):
         with open(filename, "r") as fp:
-- 
2.43.0


From c9f200d1c9cfb0bf3c4d0a8f968dca022b1b5718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:54 +0000
Subject: [PATCH 07/56] fix: load restores a yaw-pitch-roll orientation

---
 cameratransform/camera.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 8a88cc7..a7f634b 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -26,7 +26,7 @@ from typing import Union, Optional, Tuple, List
 from numbers import Number
 from .parameter_set import ParameterSet, ClassWithParameterSet, Parameter, TYPE_GPS
 from .projection import RectilinearProjection, EquirectangularProjection, CylindricalProjection, CameraProjection
-from .spatial import SpatialOrientation
+from .spatial import SpatialOrientation, SpatialOrientationYawPitchRoll
 from .lens_distortion import NoDistortion, LensDistortion, ABCDistortion, BrownLensDistortion
 from . import gps
 from . import ray
@@ -1588,7 +1588,12 @@ class Camera(ClassWithParameterSet):
             variables.pop("lens")
         else:
             lens = None
-        self.__init__(projection=projection, lens=lens, orientation=SpatialOrientation())
+
+        if "yaw_deg" in variables.keys():
+            orientation = SpatialOrientationYawPitchRoll()
+        else:
+            orientation = SpatialOrientation()
+        self.__init__(projection=projection, lens=lens, orientation=orientation)
         for key in variables:
             setattr(self, key, variables[key])
 
-- 
2.43.0


From 83e87d4b94a1a544b3b2e38272ef4753730a218d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:32 +0000
Subject: [PATCH 08/56] fix: lens distortions map the center of the image to
 itself instead of nan

---
 cameratransform/lens_distortion.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cameratransform/lens_distortion.py b/cameratransform/lens_distortion.py
index 3f74903..444a1d4 100644
--- a/cameratransform/lens_distortion.py
+++ b/cameratransform/lens_distortion.py
@@ -158,7 +158,8 @@ class BrownLensDistortion(LensDistortion):
         r = np.linalg.norm(points, axis=-1)[..., None]
         # transform the points
         with np.errstate(divide='ignore', invalid='ignore'):
-            points = points / r * self._convert_radius_inverse(r)
+            # the center is not moved
+            points = np.where(r == 0, points, points / r * self._convert_radius_inverse(r))
         # rescale back to the image
         return points * self.scale + self.offset
 
@@ -170,7 +171,8 @@ class BrownLensDistortion(LensDistortion):
         r = np.linalg.norm(points, axis=-1)[..., None]
         # transform the points
         with np.errstate(divide='ignore', invalid='ignore'):
-            points = points / r * self._convert_radius(r)
+            # the center is not moved
+            points = np.where(r == 0, points, points / r * self._convert_radius(r))
         # rescale back to the image
         return points * self.scale + self.offset
 
@@ -252,7 +254,8 @@ class ABCDistortion(LensDistortion):
         r = np.linalg.norm(points, axis=-1)[..., None]
         # transform the points
         with np.errstate(divide='ignore', invalid='ignore'):
-            points = points / r * self._convert_radius_inverse(r)
+            # the center is not moved
+            points = np.where(r == 0, points, points / r * self._convert_radius_inverse(r))
         # rescale back to the image
         return points * self.scale + self.offset
 
@@ -264,6 +267,7 @@ class ABCDistortion(LensDistortion):
         r = np.linalg.norm(points, axis=-1)[..., None]
         # transform the points
         with np.errstate(divide='ignore', invalid='ignore'):
-            points = points / r * self._convert_radius(r)
+            # the center is not moved
+            points = np.where(r == 0, points, points / r * self._convert_radius(r))
         # rescale back to the image
         return points * self.scale + self.offset
-- 
2.43.0


From 2433f7487e2e51b57aaecb5cab8db37dc0872549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:32 +0000
Subject: [PATCH 09/56] fix: a lens follows its projection also if another lens
 shares the projection

---
 cameratransform/lens_distortion.py | 31 ++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/cameratransform/lens_distortion.py b/cameratransform/lens_distortion.py
index 444a1d4..8d3ad9b 100644
--- a/cameratransform/lens_distortion.py
+++ b/cameratransform/lens_distortion.py
@@ -143,9 +143,19 @@ class BrownLensDistortion(LensDistortion):
     def _init_inverse(self):
         r = np.arange(0, 2, 0.1)
         self._convert_radius_inverse = invert_function(r, self._convert_radius)
-        if self.projection is not None:
-            self.scale = np.array([self.projection.focallength_x_px, self.projection.focallength_y_px])
-            self.offset = np.array([self.projection.center_x_px, self.projection.center_y_px])
+
+    # the scale and offset are always taken from the projection, as other lenses might share the same projection
+    @property
+    def scale(self):
+        if self.projection is None:
+            return 1
+        return np.array([self.projection.focallength_x_px, self.projection.focallength_y_px])
+
+    @property
+    def offset(self):
+        if self.projection is None:
+            return np.array([0, 0])
+        return np.array([self.projection.center_x_px, self.projection.center_y_px])
 
     def _convert_radius(self, r):
         return r*(1 + self.parameters.k1*r**2 + self.parameters.k2*r**4 + self.parameters.k3*r**6)
@@ -239,9 +249,18 @@ class ABCDistortion(LensDistortion):
         r = np.arange(0, 2, 0.1)
         self._convert_radius_inverse = invert_function(r, self._convert_radius)
 
-        if self.projection is not None:
-            self.scale = np.min([self.projection.image_width_px, self.projection.image_height_px]) / 2
-            self.offset = np.array([self.projection.center_x_px, self.projection.center_y_px])
+    # the scale and offset are always taken from the projection, as other lenses might share the same projection
+    @property
+    def scale(self):
+        if self.projection is None:
+            return 1
+        return np.min([self.projection.image_width_px, self.projection.image_height_px]) / 2
+
+    @property
+    def offset(self):
+        if self.projection is None:
+            return np.array([0, 0])
+        return np.array([self.projection.center_x_px, self.projection.center_y_px])
 
     def _convert_radius(self, r):
         return self.d * r + self.c * r**2 + self.b * r**3 + self.a * r**4
-- 
2.43.0


From 53a09e3e8eb1b9d9b006955f9729584a218c0cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:32 +0000
Subject: [PATCH 10/56] fix: a CameraGroup has as many cameras as its longest
 list

---
 cameratransform/camera.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index a7f634b..9812ffd 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -188,7 +188,7 @@ class CameraGroup(ClassWithParameterSet):
                 setattr(self, parameter_name, [parameter])
             else:
                 setattr(self, parameter_name, list(parameter))
-                self.N = len(getattr(self, parameter_name))
+                self.N = max(self.N, len(getattr(self, parameter_name)))
 
         checkCount(projection, CameraProjection, "projection_list", RectilinearProjection)
         checkCount(orientation, SpatialOrientation, "orientation_list", SpatialOrientation)
-- 
2.43.0


From 4ef954a10b7322936840cf587f3f34e98ff3493f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:32 +0000
Subject: [PATCH 11/56] fix: metropolis does not leave the allowed range when
 the step is scaled up

---
 cameratransform/statistic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cameratransform/statistic.py b/cameratransform/statistic.py
index 6904ee5..a3134af 100644
--- a/cameratransform/statistic.py
+++ b/cameratransform/statistic.py
@@ -105,7 +105,8 @@ def metropolis(getLogProb, start, step=1, iterations=1e5, burn=0.1, prior_trace=
 
             # draw a new position
             # next_pos = last_pos + np.random.normal(0, step*adaptive_scale_factor, N)
-            next_pos = last_pos + adaptive_scale_factor*step*truncnorm((ranges[:,0]-last_pos)/step, (ranges[:,1]-last_pos)/step).rvs()
+            scaled_step = adaptive_scale_factor*step
+            next_pos = last_pos + scaled_step*truncnorm((ranges[:,0]-last_pos)/scaled_step, (ranges[:,1]-last_pos)/scaled_step).rvs()
             # get the probability
             next_prob = getLogProb(list(next_pos) + next_prior_trace)
             # calculate the acceptance ratio
-- 
2.43.0


From 20b9ddbae847f87f000ceeee0957a41308f1cbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:32 +0000
Subject: [PATCH 12/56] fix: metropolis uses the step of the additional
 parameters

---
 cameratransform/parameter_set.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cameratransform/parameter_set.py b/cameratransform/parameter_set.py
index 45d9283..9c0e01d 100644
--- a/cameratransform/parameter_set.py
+++ b/cameratransform/parameter_set.py
@@ -297,7 +297,7 @@ class ClassWithParameterSet(object):
             start.append(param.value[()])
             ranges.append([param.parents.get("lower"), param.parents.get("upper")])
         start = np.array(start)
-        step = step*np.array([p.step for p in parameter])
+        step = step*np.array([p.step for p in list(parameter)+self.additional_parameters])
 
         def getLogProb(position):
             self.parameters.set_fit_parameters(parameter_names, position[:len(parameter_names)])
@@ -308,7 +308,7 @@ class ClassWithParameterSet(object):
         trys = 0
         max_tries = 1000
         while np.isinf(getLogProb(start)) and trys < max_tries:
-            start = [param.random()[()] for param in parameter+self.additional_parameters]
+            start = [param.random()[()] for param in list(parameter)+self.additional_parameters]
             trys += 1
         if trys >= max_tries:
             raise ValueError("Could not find a starting position with non-zero probability.")
-- 
2.43.0


From 929bb649cd1c2aec43ddd670a8d0f379f7f404aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:32 +0000
Subject: [PATCH 13/56] fix: a FitParameter with a custom distribution can be
 used for fitting

---
 cameratransform/statistic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cameratransform/statistic.py b/cameratransform/statistic.py
index a3134af..a529d32 100644
--- a/cameratransform/statistic.py
+++ b/cameratransform/statistic.py
@@ -272,6 +272,7 @@ class FitParameter:
     def __init__(self, name, distribution=None, lower=None, upper=None, step=1, value=None, mean=None, std=None):
         self.__name__ = name
         if distribution is not None:
+            self.parents = dict()
             self.distribution = distribution
         elif lower is not None and upper is not None:
             self.parents = dict(lower=lower, upper=upper)
-- 
2.43.0


From d93677fb113162d65890c91c06e913309de607ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:32 +0000
Subject: [PATCH 14/56] fix: a failed download of the sensor database does not
 leave a broken database

---
 cameratransform/camera.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 9812ffd..842322f 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -72,9 +72,11 @@ def _getSensorFromDatabase(model: str) -> Optional[Tuple[float, float]]:
     database_filename = "sensor_database_detailed.csv"
     # download the database if it is not there
     if not os.path.exists(database_filename):
+        print("Downloading database from:", url)
+        r = requests.get(url)
+        # do not store an error page
+        r.raise_for_status()
         with open(database_filename, "w") as fp:
-            print("Downloading database from:", url)
-            r = requests.get(url)
             fp.write(r.text)
     # load the database
     with open(database_filename, "r") as fp:
-- 
2.43.0


From 2d91d7df87ec14624ecb2fbb72086f616462fdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:32 +0000
Subject: [PATCH 15/56] fix: getCameraParametersFromExif without the sensor
 database

---
 cameratransform/camera.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 842322f..1987352 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -155,6 +155,7 @@ def getCameraParametersFromExif(filename: str, verbose: bool = False, sensor_fro
     # get the focal length
     f = exif["FocalLength"][0] / exif["FocalLength"][1]
     # get the sensor size, either from a database
+    sensor_size = None
     if sensor_from_database:
         sensor_size = _getSensorFromDatabase(exif["Model"])
     # or from the exif information
-- 
2.43.0


From 6bbbd8a90af7e6c812a397eb556eaaf23b244dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:32 +0000
Subject: [PATCH 16/56] fix: read exif rationals of current PIL versions

---
 cameratransform/camera.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 1987352..180ee93 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -150,10 +150,16 @@ def getCameraParametersFromExif(filename: str, verbose: bool = False, sensor_fro
             ret[decoded] = value
         return ret
 
+    def to_float(value):
+        # depending on the PIL version rational numbers are (numerator, denominator) tuples or number objects
+        if isinstance(value, tuple):
+            return value[0] / value[1]
+        return float(value)
+
     # read the exif information of the file
     exif = get_exif(filename)
     # get the focal length
-    f = exif["FocalLength"][0] / exif["FocalLength"][1]
+    f = to_float(exif["FocalLength"])
     # get the sensor size, either from a database
     sensor_size = None
     if sensor_from_database:
@@ -161,8 +167,8 @@ def getCameraParametersFromExif(filename: str, verbose: bool = False, sensor_fro
     # or from the exif information
     if not sensor_size or sensor_size is None:
         sensor_size = (
-            exif["ExifImageWidth"] / (exif["FocalPlaneXResolution"][0] / exif["FocalPlaneXResolution"][1]) * 25.4,
-            exif["ExifImageHeight"] / (exif["FocalPlaneYResolution"][0] / exif["FocalPlaneYResolution"][1]) * 25.4)
+            exif["ExifImageWidth"] / to_float(exif["FocalPlaneXResolution"]) * 25.4,
+            exif["ExifImageHeight"] / to_float(exif["FocalPlaneYResolution"]) * 25.4)
     # get the image size
     image_size = (exif["ExifImageWidth"], exif["ExifImageHeight"])
     # print the output if desired
-- 
2.43.0


From 19ff3755c31e281f3a4e73062829cba5c57908b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:32 +0000
Subject: [PATCH 17/56] fix: getClosestPointFromLine does not change the ray of
 the caller

---
 cameratransform/ray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/ray.py b/cameratransform/ray.py
index f63a026..835fa3a 100644
--- a/cameratransform/ray.py
+++ b/cameratransform/ray.py
@@ -325,7 +325,7 @@ def getClosestPointFromLine(origin, ray, point):
     # calculate the difference vector
     delta = point-origin
     # norm the ray
-    ray /= np.linalg.norm(ray, axis=-1)[..., None]
+    ray = ray / np.linalg.norm(ray, axis=-1)[..., None]
     # calculate the scale product
     factor = np.sum(ray*delta, axis=-1)
     try:
-- 
2.43.0


From 343cd6ecff16e9e9cc4d4083b66dafbf1cf8ff25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:32 +0000
Subject: [PATCH 18/56] fix: intersectionOfTwoLines returns an array for a
 batch with parallel lines

---
 cameratransform/ray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/ray.py b/cameratransform/ray.py
index 835fa3a..d68a2eb 100644
--- a/cameratransform/ray.py
+++ b/cameratransform/ray.py
@@ -139,7 +139,7 @@ def intersectionOfTwoLines(p1, v1, p2, v2):
             res = np.linalg.solve(np.array([[a1, b1], [a2, b2]]).transpose(2, 0, 1), np.array([c1, c2]).T[..., None])
             return np.mean([p1 + res[:, 0, 0, None] * v1, p2 + res[:, 1, 0, None] * v2], axis=0)
         except np.linalg.LinAlgError:
-            return [__intersectionOfTwoLines(p1, v1[i], p2, v2[i]) for i in range(len(v1))]
+            return np.array([__intersectionOfTwoLines(p1, v1[i], p2, v2[i]) for i in range(len(v1))])
     else:  # or just one point
         return __intersectionOfTwoLines(p1, v1, p2, v2)
 
-- 
2.43.0


From 6b305c48684ca7f4b926b4ead188f1071bb51226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:32 +0000
Subject: [PATCH 19/56] fix: formatGPS keeps the sign of coordinates between -1
 and 0 degrees

---
 cameratransform/gps.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cameratransform/gps.py b/cameratransform/gps.py
index 3c05cb5..5fc201c 100644
--- a/cameratransform/gps.py
+++ b/cameratransform/gps.py
@@ -146,7 +146,12 @@ def formatGPS(lat, lon, format=None, asLatex=False):
             else:
                 fills.append(values.pop(0))
         # format the string
-        string = format % tuple(fills)
+        line_format = format
+        # an integer degree value of 0 cannot carry the sign
+        if not use_letter and neg and fmt_degs[-1] == "d" and int(degs) == 0:
+            line_format = format.replace(fmt_degs, fmt_degs[:-1] + "s", 1)
+            fills[0] = "-0"
+        string = line_format % tuple(fills)
         # replace, if desired the degree sign
         if asLatex:
             string = string.replace("°", "\N{DEGREE SIGN}")
-- 
2.43.0


From 2772653e0acc745c5b4b0cf3740b2dc49abbf09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:32 +0000
Subject: [PATCH 20/56] fix: object height and length information accept arrays
 of variations

---
 cameratransform/camera.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 180ee93..b930b9d 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -546,7 +546,7 @@ class Camera(ClassWithParameterSet):
             when true, the information will be ignored for fitting and only be used to plot.
         """
         if not only_plot:
-            if not isinstance(variation, (float, int)):
+            if hasattr(variation, "value"):
                 self.additional_parameters += [variation]
                 def heigthInformation(points_feet=points_feet, points_head=points_head, height=height,
                                       variation=variation):
@@ -614,7 +614,7 @@ class Camera(ClassWithParameterSet):
             when true, the information will be ignored for fitting and only be used to plot.
         """
         if not only_plot:
-            if not isinstance(variation, (float, int)):
+            if hasattr(variation, "value"):
                 self.additional_parameters += [variation]
 
                 def lengthInformation(points_front=points_front, points_back=points_back, length=length,
-- 
2.43.0


From 8d6383fe62877881d9f107cb4263546859259a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:32 +0000
Subject: [PATCH 21/56] fix: sampling an uncertain heading beyond 360 degrees
 keeps its uncertainty

---
 cameratransform/spatial.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cameratransform/spatial.py b/cameratransform/spatial.py
index 30a04f0..96d20c0 100644
--- a/cameratransform/spatial.py
+++ b/cameratransform/spatial.py
@@ -106,7 +106,8 @@ class SpatialOrientation(ClassWithParameterSet):
 
     def _initCameraMatrix(self, height=None, tilt_angle=None, roll_angle=None):
         if self.heading_deg < -360 or self.heading_deg > 360:  # pragma: no cover
-            self.heading_deg = self.heading_deg % 360
+            # only change the value, as assigning the attribute would discard the uncertainty of the parameter
+            self.parameters.parameters["heading_deg"].value = self.heading_deg % 360
         # convert the angle to radians
         tilt = np.deg2rad(self.parameters.tilt_deg)
         roll = np.deg2rad(self.parameters.roll_deg)
@@ -257,7 +258,8 @@ class SpatialOrientationYawPitchRoll(SpatialOrientation):
 
     def _initCameraMatrix(self):
         if self.pitch_deg < -360 or self.pitch_deg > 360:  # pragma: no cover
-            self.pitch_deg = self.pitch_deg % 360
+            # only change the value, as assigning the attribute would discard the uncertainty of the parameter
+            self.parameters.parameters["pitch_deg"].value = self.pitch_deg % 360
         # convert the angle to radians
         tilt = np.pi/2+np.deg2rad(self.parameters.pitch_deg)
         roll = -np.deg2rad(self.parameters.roll_deg)
-- 
2.43.0


From d0c217dbb7664720970da46405eb0436b0f9374f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:14 +0000
Subject: [PATCH 22/56] fix: cached top view and undistort maps are not used
 after the camera or the arguments changed

---
 cameratransform/camera.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index b930b9d..91276b3 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -442,11 +442,11 @@ class Camera(ClassWithParameterSet):
     """
     map = None
     last_extent = None
-    last_scaling = None
+    last_map_key = None
 
     map_undistort = None
     last_extent_undistort = None
-    last_scaling_undistort = None
+    last_map_key_undistort = None
 
     R_earth = 6371e3
 
@@ -1290,6 +1290,11 @@ class Camera(ClassWithParameterSet):
         # the z difference between these two points
         return np.linalg.norm(point3D_front - point3D_back, axis=-1)
 
+    def _getCameraState(self):
+        # everything the transformations depend on, used to detect outdated cached maps
+        return type(self.projection), type(self.orientation), type(self.lens), \
+               [getattr(self, name) for name in self.parameters.parameters]
+
     def _getUndistortMap(self, extent=None, scaling=None):
         # if no extent is given, take the maximum extent from the image border
         if extent is None:
@@ -1299,10 +1304,12 @@ class Camera(ClassWithParameterSet):
         if scaling is None:
             scaling = 1
 
+        # copy the extent, as the caller might change his list later
+        extent = list(extent)
+
         # if we have cached the map, use the cached map
-        if self.map_undistort is not None and \
-                self.last_extent_undistort == extent and \
-                self.last_scaling_undistort == scaling:
+        map_key = (extent, scaling, self._getCameraState())
+        if self.map_undistort is not None and self.last_map_key_undistort == map_key:
             return self.map_undistort
 
         # get a mesh grid
@@ -1319,7 +1326,7 @@ class Camera(ClassWithParameterSet):
         self.map_undistort = mesh_points_shape.T.reshape(mesh.shape).astype(np.float32)[:, ::-1, :]
 
         self.last_extent_undistort = extent
-        self.last_scaling_undistort = scaling
+        self.last_map_key_undistort = map_key
 
         # return the calculated map
         return self.map_undistort
@@ -1382,10 +1389,12 @@ class Camera(ClassWithParameterSet):
             extent = [np.nanmin(border[:, 0]), np.nanmax(border[:, 0]),
                       np.nanmin(border[:, 1]), np.nanmax(border[:, 1])]
 
+        # copy the extent, as the caller might change his list later
+        extent = list(extent)
+
         # if we have cached the map, use the cached map
-        if self.map is not None and \
-                all(self.last_extent == np.array(extent)) and \
-                (self.last_scaling == scaling):
+        map_key = (extent, scaling, Z, hide_backpoints, self._getCameraState())
+        if self.map is not None and self.last_map_key == map_key:
             return self.map
 
         # if no scaling is given, scale so that the resulting image has an equal amount of pixels as the original image
@@ -1408,7 +1417,7 @@ class Camera(ClassWithParameterSet):
         self.map = mesh_points_shape.T.reshape(mesh.shape).astype(np.float32)[:, ::-1, :]
 
         self.last_extent = extent
-        self.last_scaling = scaling
+        self.last_map_key = map_key
 
         # return the calculated map
         return self.map
-- 
2.43.0


From 7153ce02ec87df8ca642b88dfc5ed8172ae3444f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:25 +0000
Subject: [PATCH 23/56] fix: gpsFromString accepts the documented notation with
 typographic quotes

---
 cameratransform/gps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cameratransform/gps.py b/cameratransform/gps.py
index 5fc201c..ce233d5 100644
--- a/cameratransform/gps.py
+++ b/cameratransform/gps.py
@@ -257,8 +257,8 @@ def gpsFromString(gps_string: Union[str, List[str], List[Tuple[str, float]]], he
             return data
         else:
             return np.hstack((data, [height]))
-    regex_list = [r"(?P<deg>[\d+-]+)°\s*(?P<min>\d+)('|′|´|′)\s*(?P<sec>[\d.]+)(''|\"| |´´|″)\s*",
-                  r"(?P<deg>[\d+-]+)°\s*(?P<min>[\d.]+)('|′|´|′)?\s*",
+    regex_list = [r"(?P<deg>[\d+-]+)°\s*(?P<min>\d+)('|′|´|’)\s*(?P<sec>[\d.]+)(''|\"| |´´|’’|″|”)\s*",
+                  r"(?P<deg>[\d+-]+)°\s*(?P<min>[\d.]+)('|′|´|’)?\s*",
                   r"(?P<deg>[\d.+-]+)°\s*"]
     for string in regex_list:
         pattern = r"\s*"+string.replace("<", "<lat_")+"(?P<lat_sign>N|S)?"+r"\s*,?\s*"+string.replace("<", "<lon_")+"(?P<lon_sign>W|E)?"+r"\s*"
-- 
2.43.0


From 5735214a7cc34e64ecb0bf693b8b23aef9877426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:43 +0000
Subject: [PATCH 24/56] fix: formatGPS does not print a degree too much for
 values directly below a full degree

---
 cameratransform/gps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cameratransform/gps.py b/cameratransform/gps.py
index ce233d5..c863441 100644
--- a/cameratransform/gps.py
+++ b/cameratransform/gps.py
@@ -123,11 +123,11 @@ def formatGPS(lat, lon, format=None, asLatex=False):
 
         # if the seconds are rounded up to 60, increase mins
         if fmt_sec is not None and fmt_sec % secs == fmt_sec % 60:
-            mins += 1
+            mins = int(mins) + 1
             secs = 0
         # if the mins are rounded up to 60 increase degs
         if fmt_mins is not None and fmt_mins % mins == fmt_mins % 60:
-            degs += 1
+            degs = int(degs) + 1
             mins = 0
 
         # if no letter symbol is used, keep the sign
-- 
2.43.0


From 0eb548bd35b9a8146648aa4f3df055c04d0dd155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:42 +0000
Subject: [PATCH 25/56] fix: extrudeLine covers the whole wall

---
 cameratransform/ray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/ray.py b/cameratransform/ray.py
index d68a2eb..bbbe869 100644
--- a/cameratransform/ray.py
+++ b/cameratransform/ray.py
@@ -299,7 +299,7 @@ def extrudeLine(points, z0, z1):
         point = list(point)
         if last_point is not None:
             mesh.append([point + [z0], last_point + [z0], point + [z1]])
-            mesh.append([point + [z0], last_point + [z0], last_point + [z1]])
+            mesh.append([point + [z1], last_point + [z0], last_point + [z1]])
         last_point = point
     return np.array(mesh)
 
-- 
2.43.0


From 0a1c17ed7ba2cb98f434b6c9d6dc8fb2ae123a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:07 +0000
Subject: [PATCH 26/56] fix: scaleSpace scales the position of cameras that
 share their orientation only once

---
 cameratransform/camera.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 91276b3..92a4bc7 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -430,8 +430,10 @@ class CameraGroup(ClassWithParameterSet):
             plt.imshow(im2)
 
     def scaleSpace(self, scale):
-        for cam in self:
-            cam.pos_x_m, cam.pos_y_m, cam.elevation_m = np.array([cam.pos_x_m, cam.pos_y_m, cam.elevation_m]) * scale
+        # scale each position only once, even if cameras share their orientation
+        for orientation in {id(cam.orientation): cam.orientation for cam in self}.values():
+            orientation.pos_x_m, orientation.pos_y_m, orientation.elevation_m = \
+                np.array([orientation.pos_x_m, orientation.pos_y_m, orientation.elevation_m]) * scale
 
 
 class Camera(ClassWithParameterSet):
-- 
2.43.0


From aea621f62a04e4bfd53e7fafa65e19176c1c0efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:07 +0000
Subject: [PATCH 27/56] fix: rotateSpace works for cameras with a
 yaw-pitch-roll orientation

---
 cameratransform/camera.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 92a4bc7..34d381c 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -1536,7 +1536,10 @@ class Camera(ClassWithParameterSet):
         delta_heading : number
             the number of degrees to rotate the camera clockwise.
         """
-        self.heading_deg += delta_heading
+        if isinstance(self.orientation, SpatialOrientationYawPitchRoll):
+            self.yaw_deg += delta_heading
+        else:
+            self.heading_deg += delta_heading
         delta_heading_rad = np.deg2rad(delta_heading)
         pos = np.array([self.pos_x_m, self.pos_y_m])
         s, c = np.sin(delta_heading_rad), np.cos(delta_heading_rad)
-- 
2.43.0


From f611238ccd86871372f27c19067f5ef53f47fdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:08 +0000
Subject: [PATCH 28/56] fix: getObjectHeight of objects exactly north, east,
 south or west of the camera

---
 cameratransform/camera.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 34d381c..2326e3f 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -1262,6 +1262,10 @@ class Camera(ClassWithParameterSet):
         point3D_head1 = self.spaceFromImage(point_heads, Y=point3D_feet[..., 1])
         point3D_head2 = self.spaceFromImage(point_heads, X=point3D_feet[..., 0])
         point3D_head = np.mean([point3D_head1, point3D_head2], axis=0)
+        # a coordinate in which the feet have no distance to the camera cannot constrain the ray to the head
+        distance = np.abs(point3D_feet - self.getPos())
+        point3D_head = np.where(distance[..., 1, None] < 1e-6 * distance[..., 0, None], point3D_head2, point3D_head)
+        point3D_head = np.where(distance[..., 0, None] < 1e-6 * distance[..., 1, None], point3D_head1, point3D_head)
         # the z difference between these two points
         return point3D_head[..., 2] - point3D_feet[..., 2]
 
-- 
2.43.0


From 16a52e632c4eb1b9fab2539399785b2d813fb71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:10 +0000
Subject: [PATCH 29/56] fix: sample and set_to_mean do not overwrite the focal
 lengths with the joint focal length

---
 cameratransform/parameter_set.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cameratransform/parameter_set.py b/cameratransform/parameter_set.py
index 9c0e01d..394973b 100644
--- a/cameratransform/parameter_set.py
+++ b/cameratransform/parameter_set.py
@@ -189,7 +189,8 @@ class ClassWithParameterSet(object):
             callbacks = set()
             for name, parameter_obj in self.parameters.parameters.items():
                 parameter_obj.sample()
-                if parameter_obj.callback is not None:
+                # only parameters that changed, as the callback of the joint focal length overwrites both focal lengths
+                if parameter_obj.mean is not None and parameter_obj.callback is not None:
                     callbacks.add(parameter_obj.callback)
             for call in callbacks:
                 call()
@@ -207,7 +208,8 @@ class ClassWithParameterSet(object):
             callbacks = set()
             for name, parameter_obj in self.parameters.parameters.items():
                 parameter_obj.set_to_mean()
-                if parameter_obj.callback is not None:
+                # only parameters that changed, as the callback of the joint focal length overwrites both focal lengths
+                if parameter_obj.mean is not None and parameter_obj.callback is not None:
                     callbacks.add(parameter_obj.callback)
             for call in callbacks:
                 call()
-- 
2.43.0


From 3aaaecfa76c68ad7f9c3e530019b73e910d4c9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:10 +0000
Subject: [PATCH 30/56] fix: sample works with a trace that does not have a
 default index

---
 cameratransform/parameter_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/parameter_set.py b/cameratransform/parameter_set.py
index 394973b..f7b0af6 100644
--- a/cameratransform/parameter_set.py
+++ b/cameratransform/parameter_set.py
@@ -180,7 +180,7 @@ class ClassWithParameterSet(object):
 
     def sample(self):
         if self.parameters.trace is not None:
-            parameter_set = dict(self.parameters.trace.loc[np.random.randint(len(self.parameters.trace))])
+            parameter_set = dict(self.parameters.trace.iloc[np.random.randint(len(self.parameters.trace))])
             prob = parameter_set["probability"]
             del parameter_set["probability"]
             self.parameters.set_fit_parameters(parameter_set.keys(), parameter_set.values())
-- 
2.43.0


From 2e03754cb132ded2928ab07b010983dc95534b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:10 +0000
Subject: [PATCH 31/56] fix: the focal length can be given as a tuple as
 documented

---
 cameratransform/projection.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cameratransform/projection.py b/cameratransform/projection.py
index d2a05d8..472aaa1 100644
--- a/cameratransform/projection.py
+++ b/cameratransform/projection.py
@@ -124,8 +124,12 @@ class CameraProjection(ClassWithParameterSet):
             if focallength_mm is not None:
                 raise ValueError("cannot provide both an focallength_mm and a focallength in px")
             if focallength_px:
-                focallength_x_px = focallength_px
-                focallength_y_px = focallength_px
+                try:
+                    # different focal lengths for x and y
+                    focallength_x_px, focallength_y_px = focallength_px
+                except TypeError:
+                    focallength_x_px = focallength_px
+                    focallength_y_px = focallength_px
 
         if sensor and (sensor_width_mm or sensor_height_mm):
             raise ValueError("cannot provide both an sensor shape tuple and sensor_width_mm or sensor_height_mm")
-- 
2.43.0


From 1cc14886635473f247b599c127fceff27ab79390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:10 +0000
Subject: [PATCH 32/56] fix: the field of view of one axis does not overwrite
 the focal length given for the other axis

---
 cameratransform/projection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cameratransform/projection.py b/cameratransform/projection.py
index 472aaa1..6e5319b 100644
--- a/cameratransform/projection.py
+++ b/cameratransform/projection.py
@@ -153,13 +153,13 @@ class CameraProjection(ClassWithParameterSet):
                 if focallength_x_px is not None:
                     raise ValueError("cannot set both focallength_x_px and view_x_deg")
                 focallength_x_px = self.focallengthFromFOV(view_x=view_x_deg)
-                if not view_y_deg:
+                if not view_y_deg and focallength_y_px is None:
                     focallength_y_px = focallength_x_px
             if view_y_deg:
                 if focallength_y_px:
                     raise ValueError("cannot set both focallength_y_px and view_y_deg")
                 focallength_y_px = self.focallengthFromFOV(view_y=view_y_deg)
-                if not view_x_deg:
+                if not view_x_deg and focallength_x_px is None:
                     focallength_x_px = focallength_y_px
 
         if focallength_x_px is None or focallength_y_px is None:
-- 
2.43.0


From 1bdd5427b18ef6629bdbe0650b40907b70af70f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:27 +0000
Subject: [PATCH 33/56] fix: set_to_mean works with a trace with repeated index
 values

---
 cameratransform/parameter_set.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cameratransform/parameter_set.py b/cameratransform/parameter_set.py
index f7b0af6..6b9e267 100644
--- a/cameratransform/parameter_set.py
+++ b/cameratransform/parameter_set.py
@@ -199,8 +199,8 @@ class ClassWithParameterSet(object):
         if self.parameters.trace is not None:
             print(self.parameters.trace["probability"])
             print('self.parameters.trace["probability"]', self.parameters.trace["probability"].dtype)
-            most_probable_index = self.parameters.trace["probability"].idxmax()
-            parameter_set = dict(self.parameters.trace.loc[most_probable_index])
+            most_probable_index = self.parameters.trace["probability"].argmax()
+            parameter_set = dict(self.parameters.trace.iloc[most_probable_index])
             if "probability" in parameter_set:
                 del parameter_set["probability"]
             self.parameters.set_fit_parameters(parameter_set.keys(), parameter_set.values())
-- 
2.43.0


From 21556e66ea45b2274885082ced01b057ed89a7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:27 +0000
Subject: [PATCH 34/56] fix: load restores the joint focal length

---
 cameratransform/camera.py     | 2 ++
 cameratransform/projection.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 2326e3f..713ff94 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -1623,6 +1623,8 @@ class Camera(ClassWithParameterSet):
         self.__init__(projection=projection, lens=lens, orientation=orientation)
         for key in variables:
             setattr(self, key, variables[key])
+        # the joint focal length is not stored
+        self.parameters.parameters["focallength_px"].value = self.focallength_x_px
 
 
 def load_camera(filename: str) -> Camera:
diff --git a/cameratransform/projection.py b/cameratransform/projection.py
index 6e5319b..af7a637 100644
--- a/cameratransform/projection.py
+++ b/cameratransform/projection.py
@@ -224,6 +224,8 @@ class CameraProjection(ClassWithParameterSet):
             variables = json.loads(fp.read())
         for key in variables:
             setattr(self, key, variables[key])
+        # the joint focal length is not stored
+        self.parameters.parameters["focallength_px"].value = self.focallength_x_px
 
     def imageFromCamera(self, points):  # pragma: no cover
         """
-- 
2.43.0


From 074191af5a7f25ceb7710fe4efd227740332cda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:44 +0000
Subject: [PATCH 35/56] fix: normalising a default heading or pitch no longer
 turns it into a set value

---
 cameratransform/spatial.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cameratransform/spatial.py b/cameratransform/spatial.py
index 96d20c0..c65e246 100644
--- a/cameratransform/spatial.py
+++ b/cameratransform/spatial.py
@@ -105,7 +105,8 @@ class SpatialOrientation(ClassWithParameterSet):
         return string
 
     def _initCameraMatrix(self, height=None, tilt_angle=None, roll_angle=None):
-        if self.heading_deg < -360 or self.heading_deg > 360:  # pragma: no cover
+        # a default is kept as it is, as a value would take precedence over later defaults
+        if self.parameters.parameters["heading_deg"].value is not None and (self.heading_deg < -360 or self.heading_deg > 360):  # pragma: no cover
             # only change the value, as assigning the attribute would discard the uncertainty of the parameter
             self.parameters.parameters["heading_deg"].value = self.heading_deg % 360
         # convert the angle to radians
@@ -257,7 +258,8 @@ class SpatialOrientationYawPitchRoll(SpatialOrientation):
         return string
 
     def _initCameraMatrix(self):
-        if self.pitch_deg < -360 or self.pitch_deg > 360:  # pragma: no cover
+        # a default is kept as it is, as a value would take precedence over later defaults
+        if self.parameters.parameters["pitch_deg"].value is not None and (self.pitch_deg < -360 or self.pitch_deg > 360):  # pragma: no cover
             # only change the value, as assigning the attribute would discard the uncertainty of the parameter
             self.parameters.parameters["pitch_deg"].value = self.pitch_deg % 360
         # convert the angle to radians
-- 
2.43.0


From 08616b171acc8f8fcc0d3fc5a570b37f6a82bcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:29 +0000
Subject: [PATCH 36/56] fix: rows of a Metropolis trace with a prior trace keep
 the prior they were evaluated with

---
 cameratransform/statistic.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cameratransform/statistic.py b/cameratransform/statistic.py
index a529d32..ac2a7f7 100644
--- a/cameratransform/statistic.py
+++ b/cameratransform/statistic.py
@@ -93,8 +93,8 @@ def metropolis(getLogProb, start, step=1, iterations=1e5, burn=0.1, prior_trace=
         next_prior_trace = []
 
     # initialize the start position
-    last_pos = start
-    last_prob = getLogProb(list(last_pos) + next_prior_trace)
+    last_pos, last_prior_trace = start, next_prior_trace
+    last_prob = getLogProb(list(last_pos) + last_prior_trace)
     # iterate to sample
     with tqdm.trange(int(iterations), disable=disable_bar) as t:
         for i in t:
@@ -119,13 +119,13 @@ def metropolis(getLogProb, start, step=1, iterations=1e5, burn=0.1, prior_trace=
                 # count accepted values
                 accepted += 1
                 # store position
-                last_pos, last_prob = next_pos, next_prob
+                last_pos, last_prior_trace, last_prob = next_pos, next_prior_trace, next_prob
             else:
                 rejected += 1
 
             # add to trace after skipping the first points
             if i > burn:
-                trace.append(list(last_pos) + next_prior_trace + [last_prob])
+                trace.append(list(last_pos) + last_prior_trace + [last_prob])
             else:
                 if i > 100 and i % 100 == 0 and tuning:
                     acc_rate = accepted / (accepted + rejected)
-- 
2.43.0


From 2402192bbd1e587e976cdb02927ffbffe010145f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:56 +0000
Subject: [PATCH 37/56] fix: a download of the sensor database that cannot be
 written completely does not leave a broken database

---
 cameratransform/camera.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 713ff94..e612fd9 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -76,8 +76,10 @@ def _getSensorFromDatabase(model: str) -> Optional[Tuple[float, float]]:
         r = requests.get(url)
         # do not store an error page
         r.raise_for_status()
-        with open(database_filename, "w") as fp:
+        # only a completely written file becomes the database
+        with open(database_filename + ".part", "w") as fp:
             fp.write(r.text)
+        os.replace(database_filename + ".part", database_filename)
     # load the database
     with open(database_filename, "r") as fp:
         data = fp.readlines()
-- 
2.43.0


From ca357ffa8d5807e49cd88c8d5441fc59507db5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:56 +0000
Subject: [PATCH 38/56] fix: a model name that is only a manufacturer does not
 match any camera of this manufacturer

---
 cameratransform/camera.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index e612fd9..b23ab46 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -84,14 +84,13 @@ def _getSensorFromDatabase(model: str) -> Optional[Tuple[float, float]]:
     with open(database_filename, "r") as fp:
         data = fp.readlines()
 
-    # format the name
-    model = model.replace(" ", ";", 1)
-    name = model + ";"
+    # split the name in manufacturer and model
+    name = model.split(" ", 1)
     # try to find it
     for line in data:
-        if line.startswith(name):
+        line = line.split(";")
+        if line[:2] == name:
             # extract the sensor dimensions
-            line = line.split(";")
             sensor_size = (float(line[3]), float(line[4]))
             return sensor_size
     # no sensor size found
-- 
2.43.0


From 3bd9ae9de840511bb13414b0627205b501dc20a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:56 +0000
Subject: [PATCH 39/56] fix: the sensor size from the exif data respects a
 focal plane resolution per centimeter

---
 cameratransform/camera.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index b23ab46..1fe068c 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -167,9 +167,11 @@ def getCameraParametersFromExif(filename: str, verbose: bool = False, sensor_fro
         sensor_size = _getSensorFromDatabase(exif["Model"])
     # or from the exif information
     if not sensor_size or sensor_size is None:
+        # the resolution is given in pixels per inch (2, the default) or per centimeter (3)
+        unit_mm = 10 if exif.get("FocalPlaneResolutionUnit") == 3 else 25.4
         sensor_size = (
-            exif["ExifImageWidth"] / to_float(exif["FocalPlaneXResolution"]) * 25.4,
-            exif["ExifImageHeight"] / to_float(exif["FocalPlaneYResolution"]) * 25.4)
+            exif["ExifImageWidth"] / to_float(exif["FocalPlaneXResolution"]) * unit_mm,
+            exif["ExifImageHeight"] / to_float(exif["FocalPlaneYResolution"]) * unit_mm)
     # get the image size
     image_size = (exif["ExifImageWidth"], exif["ExifImageHeight"])
     # print the output if desired
-- 
2.43.0


From c315e5875620b17f600382d5278a1c294b50cf01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:52 +0000
Subject: [PATCH 40/56] fix: a fit next to positions with zero probability does
 not end with nan

---
 cameratransform/parameter_set.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cameratransform/parameter_set.py b/cameratransform/parameter_set.py
index 6b9e267..b27a19f 100644
--- a/cameratransform/parameter_set.py
+++ b/cameratransform/parameter_set.py
@@ -282,6 +282,11 @@ class ClassWithParameterSet(object):
             return -self.getLogProbability()
 
         p = minimize(cost, estimates, bounds=ranges, **kwargs)
+        # next to positions with zero probability the optimizer can end with nan or with the value of another position
+        if not np.isfinite(cost(p["x"])):
+            lower, upper = np.array(ranges, dtype=float).T  # nan for parameters without a limit
+            p.update(x=np.fmin(np.fmax(estimates, lower), upper), success=False)
+        p["fun"] = cost(p["x"])
         self.parameters.set_fit_parameters(names, p["x"])
         return p
 
-- 
2.43.0


From ccb4a66fdb3f5a213f4b876cfb3c62d16b88d446 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Wed, 18 Nov 2026 19:36:39 +0000
Subject: [PATCH 41/56] fix: cameras with different projections can share a
 lens

---
 cameratransform/camera.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 1fe068c..4be5359 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -472,6 +472,11 @@ class Camera(ClassWithParameterSet):
         params.update(self.lens.parameters.parameters)
         self.parameters = ParameterSet(**params)
 
+    def _getLens(self) -> LensDistortion:
+        # the lens can be shared with cameras that have another projection
+        self.lens.projection = self.projection
+        return self.lens
+
     def __str__(self):
         string = "CameraTransform(\n"
         string += str(self.lens)
@@ -1020,7 +1025,7 @@ class Camera(ClassWithParameterSet):
         # ensure that the points are provided as an array
         points = ensure_array_format(points, "...x3")
         # project the points from the space to the camera and from the camera to the image
-        return self.lens.distortedFromImage(self.projection.imageFromCamera(self.orientation.cameraFromSpace(points), hide_backpoints=hide_backpoints))
+        return self._getLens().distortedFromImage(self.projection.imageFromCamera(self.orientation.cameraFromSpace(points), hide_backpoints=hide_backpoints))
 
     def getRay(self, points: Points2D, normed: bool = False) -> Tuple[Points3D, Points3D]:
         """
@@ -1069,7 +1074,7 @@ class Camera(ClassWithParameterSet):
         offset = self.orientation.spaceFromCamera([0, 0, 0])
         # get the direction fo the ray from the points
         # the projection provides the ray in camera coordinates, which we convert to the space coordinates
-        direction = self.orientation.spaceFromCamera(self.projection.getRay(self.lens.imageFromDistorted(points), normed=normed), direction=True)
+        direction = self.orientation.spaceFromCamera(self.projection.getRay(self._getLens().imageFromDistorted(points), normed=normed), direction=True)
         # return the offset point and the direction of the ray
         return offset, direction
 
@@ -1329,7 +1334,7 @@ class Camera(ClassWithParameterSet):
         mesh_points = mesh.reshape(2, mesh.shape[1] * mesh.shape[2]).T
 
         # transform the space points to the image
-        mesh_points_shape = self.lens.distortedFromImage(mesh_points)
+        mesh_points_shape = self._getLens().distortedFromImage(mesh_points)
 
         # reshape the map and cache it
         self.map_undistort = mesh_points_shape.T.reshape(mesh.shape).astype(np.float32)[:, ::-1, :]
-- 
2.43.0


From 0fa007a0d10d895d08ac5832f3327e677f1a6fbb Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Wed, 18 Nov 2026 19:37:18 +0000
Subject: [PATCH 42/56] fix: the parameters of a group do not contain those of
 a projection its lens was used with before

---
 cameratransform/camera.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 4be5359..7324f8c 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -24,7 +24,7 @@ import itertools
 from scipy import stats
 from typing import Union, Optional, Tuple, List
 from numbers import Number
-from .parameter_set import ParameterSet, ClassWithParameterSet, Parameter, TYPE_GPS
+from .parameter_set import ParameterSet, ClassWithParameterSet, Parameter, TYPE_GPS, TYPE_INTRINSIC
 from .projection import RectilinearProjection, EquirectangularProjection, CylindricalProjection, CameraProjection
 from .spatial import SpatialOrientation, SpatialOrientationYawPitchRoll
 from .lens_distortion import NoDistortion, LensDistortion, ABCDistortion, BrownLensDistortion
@@ -207,13 +207,19 @@ class CameraGroup(ClassWithParameterSet):
         checkCount(lens, LensDistortion, "lens_list", NoDistortion)
 
         params = {}
+        def ownParameters(part):
+            # a lens that already belongs to a camera also has the parameters of the projection of this camera
+            if isinstance(part, LensDistortion):
+                return {name: p for name, p in part.parameters.parameters.items() if p.type != TYPE_INTRINSIC}
+            return part.parameters.parameters
+
         def gatherParameters(parameter_list):
             if len(parameter_list) == 1:
-                params.update(parameter_list[0].parameters.parameters)
+                params.update(ownParameters(parameter_list[0]))
             else:
                 for index, proj in enumerate(parameter_list):
-                    for name in proj.parameters.parameters:
-                        params["C%d_%s" % (index, name)] = proj.parameters.parameters[name]
+                    for name, parameter in ownParameters(proj).items():
+                        params["C%d_%s" % (index, name)] = parameter
 
         gatherParameters(self.projection_list)
         gatherParameters(self.orientation_list)
-- 
2.43.0


From bde2cee450165907e2e510e5c70a05098772154d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:12 +0000
Subject: [PATCH 43/56] fix: the second camera gets the right position and
 heading in setCameraParametersByPointCorrespondence

The rotation about the vertical axis had the wrong sign, and the translation of the
essential matrix was used as the position of the camera, in image axes.
---
 cameratransform/camera.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 7324f8c..02ca63c 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -330,15 +330,17 @@ class CameraGroup(ClassWithParameterSet):
             alpha = np.rad2deg(np.arctan2(R[0, 2], -R[1, 2]))
             beta = np.rad2deg(np.arccos(R[2, 2]))
             gamma = np.rad2deg(np.arctan2(R[2, 0], R[2, 1]))
-            return np.array([180 + alpha, beta, 180 + gamma])
+            return np.array([180 + alpha, beta, 180 - gamma])
 
         roll, tilt, heading = rotationToEuler(rot)
+        # the position of the second camera in the coordinates of the first camera (y points downwards and z forwards)
+        t = -rot.T @ t
         data = dict(roll_deg=roll,
                     tilt_deg=tilt,
                     heading_deg=heading,
                     pos_x_m=cam1.pos_x_m + t[0, 0]*baseline,
-                    pos_y_m=cam1.pos_y_m + t[1, 0]*baseline,
-                    elevation_m=cam1.elevation_m + t[2, 0]*baseline)
+                    pos_y_m=cam1.pos_y_m - t[1, 0]*baseline,
+                    elevation_m=cam1.elevation_m - t[2, 0]*baseline)
         print(data)
         cam2.parameters.set_fit_parameters(data.keys(), data.values())
 
-- 
2.43.0


From a5a3befeba9f96fabde77b6f9edda3e4f39d1aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:26 +0000
Subject: [PATCH 44/56] fix: getTopViewOfImage guesses the extent on the ground

Without an extent the border of the image in pixels was used as the extent in meters,
so that the top view showed an arbitrary part of the ground or nothing.
---
 cameratransform/camera.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 02ca63c..707582b 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -1405,9 +1405,9 @@ class Camera(ClassWithParameterSet):
         return image
 
     def _getMap(self, extent=None, scaling=None, Z=0, hide_backpoints=True):
-        # if no extent is given, take the maximum extent from the image border
+        # if no extent is given, take the maximum extent from the projection of the image border
         if extent is None:
-            border = self.getImageBorder()
+            border = self.spaceFromImage(self.getImageBorder(), Z=Z)
             extent = [np.nanmin(border[:, 0]), np.nanmax(border[:, 0]),
                       np.nanmin(border[:, 1]), np.nanmax(border[:, 1])]
 
-- 
2.43.0


From 296c0577b1a555d37394a822ca08519b6af829c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:00 +0000
Subject: [PATCH 45/56] fix: the plot of length information works with several
 lengths

---
 cameratransform/camera.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 707582b..df46ede 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -667,7 +667,7 @@ class Camera(ClassWithParameterSet):
             point3D_back = self.spaceFromImage(points_back, Z=Z)
             difference = point3D_back - point3D_front
             difference /= np.linalg.norm(difference, axis=-1)[..., None]
-            predicted_back = point3D_front + difference * length
+            predicted_back = point3D_front + difference * np.asarray(length)[..., None]
             projected_back = self.imageFromSpace(predicted_back)
 
             plt.scatter(projected_back[..., 0], projected_back[..., 1], label="back", facecolors='none',
-- 
2.43.0


From 39b5956e51cfe927b37add522d0d9fc403a9ea04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:00 +0000
Subject: [PATCH 46/56] fix: the summary of a trace with a constant parameter

---
 cameratransform/statistic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cameratransform/statistic.py b/cameratransform/statistic.py
index ac2a7f7..e35a9e6 100644
--- a/cameratransform/statistic.py
+++ b/cameratransform/statistic.py
@@ -25,6 +25,9 @@ import tqdm
 from scipy.stats import truncnorm
 
 def print_mean_std(x, y):
+    # without a deviation there are no digits to round to
+    if not (y != 0 and np.isfinite(y)):
+        return str(x) + "±" + str(y)
     digits = -int(floor(log10(abs(y))))
     return str(round(x, digits)) + "±" + str(round(y, 1+digits))
 
-- 
2.43.0


From 98115369a7cdada650da0b850314167a7fa6c6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:00 +0000
Subject: [PATCH 47/56] fix: plotTrace finds the most probable sample if the
 rows of the trace are not numbered from zero

---
 cameratransform/statistic.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cameratransform/statistic.py b/cameratransform/statistic.py
index e35a9e6..c5bb20f 100644
--- a/cameratransform/statistic.py
+++ b/cameratransform/statistic.py
@@ -190,8 +190,9 @@ def plotTrace(trace, N=None, show_mean_median=True, axes=None, just_distribution
             return ax1, ax2
         return trace_ax_dict[name]
 
+    # the position of the most probable row, as the index of a trace does not have to be unique
     try:
-        most_probable_index = trace["probability"].idxmax()
+        most_probable_index = np.argmax(trace["probability"].values)
     except KeyError:
         most_probable_index = 0
 
@@ -232,7 +233,7 @@ def plotTrace(trace, N=None, show_mean_median=True, axes=None, just_distribution
         plt.ylabel("frequency")
         plt.xlabel(name)
         if show_mean_median:
-            plt.axvline(data[most_probable_index], color="r")
+            plt.axvline(data.iloc[most_probable_index], color="r")
             plt.axvline(np.mean(data), color="k")
 
         if not just_distributions:
@@ -240,7 +241,7 @@ def plotTrace(trace, N=None, show_mean_median=True, axes=None, just_distribution
             plt.title(name)
             plt.plot(data[::skip])
             if show_mean_median:
-                plt.axhline(data[most_probable_index], color="r")
+                plt.axhline(data.iloc[most_probable_index], color="r")
                 plt.axhline(np.mean(data), color="k")
             plt.ylabel("sampled value")
     #plt.tight_layout()
-- 
2.43.0


From 94ea876196676e0a96d732ca56de6893595164ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:07 +0000
Subject: [PATCH 48/56] fix: the views of a scene without a camera

---
 cameratransform/scene.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cameratransform/scene.py b/cameratransform/scene.py
index 06a66ff..5153117 100644
--- a/cameratransform/scene.py
+++ b/cameratransform/scene.py
@@ -35,7 +35,8 @@ class Scene:  # pragma: no cover
 
     def plotSceneViews(self, axes=None):
         import matplotlib.pyplot as plt
-        cone = self.camera.getCameraCone()
+        # the camera is optional
+        cone = self.camera.getCameraCone() if self.camera is not None else np.full((1, 3), np.nan)
 
         if axes is None:
             axes = [plt.subplot(221), plt.subplot(222), plt.subplot(223), plt.subplot(224)]
-- 
2.43.0


From 1b40bf9a30686d7e9d73b2c814814c5c7dd51710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:07 +0000
Subject: [PATCH 49/56] fix: a rendered scene has the size of the current
 camera's image

---
 cameratransform/scene.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cameratransform/scene.py b/cameratransform/scene.py
index 5153117..92c7e2f 100644
--- a/cameratransform/scene.py
+++ b/cameratransform/scene.py
@@ -84,7 +84,8 @@ class Scene:  # pragma: no cover
 
     def renderImage(self, filename):
         import matplotlib.pyplot as plt
-        fig = plt.figure(0, (self.camera.projection.parameters.image_width_px / 100,
+        # always a new figure, as the size of an existing figure would be kept
+        fig = plt.figure(None, (self.camera.projection.parameters.image_width_px / 100,
                              self.camera.projection.parameters.image_height_px / 100))
         ax = plt.axes([0, 0, 1, 1])
         im = np.zeros(
@@ -96,7 +97,7 @@ class Scene:  # pragma: no cover
         plt.xlim(0, self.camera.projection.parameters.image_width_px)
         plt.ylim(self.camera.projection.parameters.image_height_px, 0)
         plt.savefig(filename, dpi=100)
-        fig.clear()
+        plt.close(fig)
 
     def addCube(self, pos, width):
         points = []
-- 
2.43.0


From 2cce2d58556b842236e05281dbdbddf03ce18c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:07 +0000
Subject: [PATCH 50/56] fix: plotEpilines with an epipolar line that misses the
 image

---
 cameratransform/camera.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index df46ede..7b1a4c8 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -385,7 +385,8 @@ class CameraGroup(ClassWithParameterSet):
 
             for point, line in zip(points, lines):
                 line = drawLine(line, 0, camA.image_width_px, 0, camA.image_height_px)
-                plt.plot(point[0], point[1], "o", color=line.get_color())
+                # lines of bad estimates or wrong correspondences can miss the image
+                plt.plot(point[0], point[1], "o", color=line.get_color() if line is not None else None)
 
             p = camA.imageFromSpace(camB.getPos())
             print("p", p)
-- 
2.43.0


From 58012dfb7bace6900f9d2cdf6bacab6bd9cb320e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:07 +0000
Subject: [PATCH 51/56] fix: the fridge sampler evaluates the probability at
 the values of its variables

---
 cameratransform/parameter_set.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/cameratransform/parameter_set.py b/cameratransform/parameter_set.py
index b27a19f..ef0ac39 100644
--- a/cameratransform/parameter_set.py
+++ b/cameratransform/parameter_set.py
@@ -338,8 +338,16 @@ class ClassWithParameterSet(object):
             sys.modules.update((mod_name, mock.MagicMock()) for mod_name in ["pymc", "pymc.ZeroProbability"])
             from bayesianfridge import sample
 
+            names = [p.__name__ for p in parameter]
+            variables = list(parameter) + self.additional_parameters
+
+            def getLogProb():
+                # the sampler changes the values of the variables
+                self.parameters.set_fit_parameters(names, [float(p.value) for p in parameter])
+                return self.getLogProbability()
+
             # we create our own model mimicking a pymc model
-            model = Model(parameter+self.additional_parameters, self.getLogProbability)
+            model = Model(variables, getLogProb)
 
         else:
             import pymc
@@ -357,15 +365,15 @@ class ClassWithParameterSet(object):
 
         samples, marglike = sample(model, int(iterations), **kwargs)
 
-        columns = [p.__name__ for p in parameter + self.additional_parameters]
+        columns = [p.__name__ for p in variables]
 
         data = np.array([samples[c] for c in columns]).T
         probability = []
         import tqdm
         for values in tqdm.tqdm(data):
-            self.parameters.set_fit_parameters(columns, values)
-            logprob = self.getLogProbability()
-            probability.append(logprob)
+            for param, value in zip(variables, values):
+                param.set_value(value)
+            probability.append(getLogProb())
         trace = pd.DataFrame(np.hstack((data, np.array(probability)[:, None])), columns=columns + ["probability"])
 
         self.set_trace(trace)
-- 
2.43.0


From 3f3e3136a5ec222e3a2625eaa346d75c1c5b1e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:08 +0000
Subject: [PATCH 52/56] fix: metropolis accepts a prior trace whose rows are
 not numbered from zero

---
 cameratransform/statistic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cameratransform/statistic.py b/cameratransform/statistic.py
index c5bb20f..f1abd99 100644
--- a/cameratransform/statistic.py
+++ b/cameratransform/statistic.py
@@ -91,7 +91,7 @@ def metropolis(getLogProb, start, step=1, iterations=1e5, burn=0.1, prior_trace=
     tuning = True
 
     if prior_trace is not None:
-        next_prior_trace = list(prior_trace.loc[np.random.randint(len(prior_trace))])[:-1]
+        next_prior_trace = list(prior_trace.iloc[np.random.randint(len(prior_trace))])[:-1]
     else:
         next_prior_trace = []
 
@@ -102,7 +102,7 @@ def metropolis(getLogProb, start, step=1, iterations=1e5, burn=0.1, prior_trace=
     with tqdm.trange(int(iterations), disable=disable_bar) as t:
         for i in t:
             if prior_trace is not None:
-                next_prior_trace = list(prior_trace.loc[np.random.randint(len(prior_trace))])[:-1]
+                next_prior_trace = list(prior_trace.iloc[np.random.randint(len(prior_trace))])[:-1]
             else:
                 next_prior_trace = []
 
-- 
2.43.0


From f76b71b045874237a8337cbf4ba39eddfa56f146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:17 +0000
Subject: [PATCH 53/56] fix: the distance of two lines does not depend on the
 length of the direction vectors

---
 cameratransform/ray.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/cameratransform/ray.py b/cameratransform/ray.py
index bbbe869..4530382 100644
--- a/cameratransform/ray.py
+++ b/cameratransform/ray.py
@@ -209,19 +209,21 @@ def __distanceOfTwoLines(p1, v1, p2, v2):
     norm_v1_cross_v2 = np.linalg.norm(v1_cross_v2)
 
     # Check if lines are parallel (or coincident)
-    # If the cross product is zero (or very close to zero), the lines are parallel.
-    if np.isclose(norm_v1_cross_v2, 0):
+    # If the cross product is zero (or very close to zero), the lines are parallel. The cross product scales with the
+    # length of the direction vectors, short direction vectors do not make the lines parallel.
+    norm_v1 = np.linalg.norm(v1)
+    norm_v2 = np.linalg.norm(v2)
+    if norm_v1_cross_v2 <= 1e-8 * norm_v1 * norm_v2:
         # Lines are parallel (or coincident).
         # The distance is the shortest distance from a point on one line to the other line.
         # This is given by: d = |(p2 - p1) x v1| / |v1|
-        norm_v1 = np.linalg.norm(v1)
-        if np.isclose(norm_v1, 0):
+        if norm_v1 == 0:
             # This means v1 is a zero vector.
             # If v2 is also zero, we have two points. Distance is between p1 and p2.
-            if np.isclose(np.linalg.norm(v2), 0):
+            if norm_v2 == 0:
                 return np.linalg.norm(p1p2)
             else:  # v1 is zero, v2 is not. p1 is a point, L2 is a line.
-                return np.linalg.norm(np.cross(p1p2, v2)) / np.linalg.norm(v2)
+                return np.linalg.norm(np.cross(p1p2, v2)) / norm_v2
 
         # General case for parallel lines (non-zero direction vectors)
         numerator = np.linalg.norm(np.cross(p1p2, v1))
-- 
2.43.0


From 822c2444ae5fe8b44adf203adf6ab0622e3ea973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:17 +0000
Subject: [PATCH 54/56] fix: the area of a triangle whose points are on a line
 is not nan

---
 cameratransform/ray.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cameratransform/ray.py b/cameratransform/ray.py
index 4530382..6c0bd01 100644
--- a/cameratransform/ray.py
+++ b/cameratransform/ray.py
@@ -254,8 +254,8 @@ def areaOfTriangle(triangle):
     b = np.linalg.norm(triangle[..., 1, :] - triangle[..., 2, :])
     c = np.linalg.norm(triangle[..., 2, :] - triangle[..., 0, :])
     s = (a+b+c)/2
-    # Herons formula
-    return np.sqrt(s*(s-a)*(s-b)*(s-c))
+    # Herons formula (rounding can make one of the terms negative if the points are on a line)
+    return np.sqrt(np.maximum(s*(s-a)*(s-b)*(s-c), 0))
 
 
 def areaOfQuadrilateral(rect):
-- 
2.43.0


From abaf0c5b014bf810500e45247301e1b1b61bd7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:08 +0000
Subject: [PATCH 55/56] fix: spaceFromImage accepts a list of distances

---
 cameratransform/camera.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 7b1a4c8..58bc3f7 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -1171,7 +1171,7 @@ class Camera(ClassWithParameterSet):
             # get the rays from the image points (in this case it has to be normed)
             offset, direction = self.getRay(points, normed=True)
             # the factor is than simple the distance
-            factor = D
+            factor = np.asarray(D)[()]
         else:
             # get the rays from the image points
             offset, direction = self.getRay(points)
-- 
2.43.0


From 690107ea11366314f6689b2fd2b25a19e00ede90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:39 +0000
Subject: [PATCH 56/56] fix: gpsFromString accepts heights for a list of points

---
 cameratransform/gps.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cameratransform/gps.py b/cameratransform/gps.py
index c863441..dfeb157 100644
--- a/cameratransform/gps.py
+++ b/cameratransform/gps.py
@@ -255,8 +255,10 @@ def gpsFromString(gps_string: Union[str, List[str], List[Tuple[str, float]]], he
         # and optionally add a height
         if height is None:
             return data
-        else:
-            return np.hstack((data, [height]))
+        # a batch of points gets one height each
+        if data.ndim == 2:
+            return np.column_stack((data, np.broadcast_to(height, len(data))))
+        return np.hstack((data, [height]))
     regex_list = [r"(?P<deg>[\d+-]+)°\s*(?P<min>\d+)('|′|´|’)\s*(?P<sec>[\d.]+)(''|\"| |´´|’’|″|”)\s*",
                   r"(?P<deg>[\d+-]+)°\s*(?P<min>[\d.]+)('|′|´|’)?\s*",
                   r"(?P<deg>[\d.+-]+)°\s*"]
-- 
2.43.0

