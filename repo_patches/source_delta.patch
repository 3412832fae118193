From 6813590c9b43a188799a5f443399e31e1ac397bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:06 +0000
Subject: [PATCH 01/91] fix: keep fractional and NaN nodata values when a
 floating point geotiff is written

---
 .../earth_overhead/geotiff/geotiff_image.py           | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
index 7b6244f..944f55f 100644
--- a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
+++ b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
@@ -98,6 +98,13 @@ class GeotiffImage(AbstractEarthOverheadImage):
         band = self._dset.GetRasterBand(band_number + 1)
         return band.ReadAsArray()
 
+    def _nodata_val_for_gdal(self):
+        nodata_val = self.get_metadata().get_nodata_val()
+        if self.get_metadata().get_gdal_datatype() in (gdal.GDT_Float32, gdal.GDT_Float64,
+                                                       gdal.GDT_CFloat32, gdal.GDT_CFloat64):
+            return float(nodata_val)
+        return int(nodata_val)
+
     def get_gdal_mem_datset(self):  # type: (...) -> gdal.Dataset
         driver = gdal.GetDriverByName('MEM')
         dtype = self.get_metadata().get_gdal_datatype()
@@ -115,7 +122,7 @@ class GeotiffImage(AbstractEarthOverheadImage):
         for band in range(self.get_metadata().get_n_bands()):
             dataset.GetRasterBand(band + 1).WriteArray(self.get_image_band(band))
             if self.get_metadata().get_nodata_val() is not None:
-                dataset.GetRasterBand(band + 1).SetNoDataValue(int(self.get_metadata().get_nodata_val()))
+                dataset.GetRasterBand(band + 1).SetNoDataValue(self._nodata_val_for_gdal())
         return dataset
 
     def write_to_disk(self,
@@ -139,7 +146,7 @@ class GeotiffImage(AbstractEarthOverheadImage):
         for band in range(self.get_metadata().get_n_bands()):
             dataset.GetRasterBand(band + 1).WriteArray(self.get_image_band(band))
             if self.get_metadata().get_nodata_val() is not None:
-                dataset.GetRasterBand(band + 1).SetNoDataValue(int(self.get_metadata().get_nodata_val()))
+                dataset.GetRasterBand(band + 1).SetNoDataValue(self._nodata_val_for_gdal())
         dataset.FlushCache()
         dataset = None
 
-- 
2.43.0


From b9256d5402ec035de0e4d43266936e0cc149359f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:06 +0000
Subject: [PATCH 02/91] fix: warp to a private in-memory geotiff instead of a
 shared vrt over a source that is gone

---
 resippy/image_objects/earth_overhead/geotiff/geotiff_image.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
index 944f55f..0c2005a 100644
--- a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
+++ b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
@@ -1,5 +1,7 @@
 from __future__ import division
 
+import uuid
+
 import gdal
 import numpy as np
 import osr
@@ -160,7 +162,7 @@ class GeotiffImage(AbstractEarthOverheadImage):
             src_dataset = image.get_gdal_mem_datset()
 
         if dst_fname is None:
-            dst_fname="/vsimem/tmp_gdalwarp_geotiff.vrt"
+            dst_fname = "/vsimem/tmp_gdalwarp_geotiff_" + uuid.uuid4().hex + ".tif"
 
         dst_dataset = gdal.Warp(dst_fname, src_dataset, options=warp_ops)
         src_dataset = None
-- 
2.43.0


From 41bff45ae89517a801ab898456a19f88478a45ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:06 +0000
Subject: [PATCH 03/91] fix: return None for a band of an image that is not
 loaded so that callers can read it from disk

---
 resippy/image_objects/abstract_image.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resippy/image_objects/abstract_image.py b/resippy/image_objects/abstract_image.py
index 878506c..e32a8db 100644
--- a/resippy/image_objects/abstract_image.py
+++ b/resippy/image_objects/abstract_image.py
@@ -87,8 +87,10 @@ class AbstractImage():
         """
         Gets a particular image band of the image object's _image_data class variable.  band_num is zero-based.
         :param band_num: band number to get
-        :return: image band of dimensions (ny, nx)
+        :return: image band of dimensions (ny, nx), or None if no image data has been loaded
         """
+        if self._image_data is None:
+            return None
         return self._image_data[:, :, band_num]
 
     def set_image_band(self,
-- 
2.43.0


From 89ad980f6b4dbd5e08d9567c82ebead46c48169b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:00 +0000
Subject: [PATCH 04/91] fix: use the RPC00B cross term latitude^2 * height for
 the 19th coefficient

---
 .../earth_overhead_point_calculators/rpc_point_calc.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/rpc_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/rpc_point_calc.py
index 0f27d9d..83bf413 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/rpc_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/rpc_point_calc.py
@@ -182,7 +182,7 @@ class RPCPointCalc(AbstractEarthOverheadPointCalc):
 
         p = a1 + a2*y + a3*x + a4*z + a5*xy + a6*yz + a7*xz + a8 * y_squared + \
             a9*x_squared + a10*z_squared + a11*x*y*z + a12*y_cubed + a13*y*x_squared + a14*y*z_squared + \
-            a15*y_squared*x + a16*x_cubed + a17*x*z_squared + a18*y_squared*z + a19*x_squared*y + a20*z_cubed
+            a15*y_squared*x + a16*x_cubed + a17*x*z_squared + a18*y_squared*z + a19*x_squared*z + a20*z_cubed
         return p
 
     def _lon_lat_alt_to_pixel_x_y_native(self,
-- 
2.43.0


From f6ea7be56436cdbdadc8285b02cd48f9b21eda78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:00 +0000
Subject: [PATCH 05/91] fix: take the third radial distortion coefficient of a
 pix4d camera from its own entry

---
 .../earth_overhead_point_calculators/pix4d_point_calc.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py
index adc58ea..6931343 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py
@@ -100,7 +100,7 @@ class Pix4dPointCalc(AbstractEarthOverheadPointCalc):
         point_calc.tangential_distortion_2 = all_params[image_key_basename]['tangential_distortion'][1]
         point_calc.radial_distortion_1 = all_params[image_key_basename]['radial_distortion'][0]
         point_calc.radial_distortion_2 = all_params[image_key_basename]['radial_distortion'][1]
-        point_calc.radial_distortion_3 = all_params[image_key_basename]['radial_distortion'][1]
+        point_calc.radial_distortion_3 = all_params[image_key_basename]['radial_distortion'][2]
         point_calc.distortion_model = distortion_model
 
         approximate_lon = all_params[image_key_basename]['external_params'][0]
-- 
2.43.0


From ec3daf46bb0824caaa16162ac673a88b21b0458c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:00 +0000
Subject: [PATCH 06/91] fix: pass the UTM zone number without its latitude band
 letter to proj

---
 resippy/utils/proj_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resippy/utils/proj_utils.py b/resippy/utils/proj_utils.py
index f1d1bb2..e6d5faa 100644
--- a/resippy/utils/proj_utils.py
+++ b/resippy/utils/proj_utils.py
@@ -29,8 +29,8 @@ def decimal_degrees_to_local_utm_proj(lon_decimal_degrees,      # type: float
                                       lat_decimal_degrees,      # type: float
                                       ):                        # type: (...) -> Proj
     zone_info = utm.from_latlon(lat_decimal_degrees, lon_decimal_degrees)
-    zone_string = str(zone_info[2]) + zone_info[3]
-    zone_letter = zone_string[-1]
+    zone_number = zone_info[2]
+    zone_letter = zone_info[3]
     is_south_zone = zone_letter < 'N'
-    local_proj = Proj(proj='utm', ellps='WGS84', zone=zone_string, south=is_south_zone)
+    local_proj = Proj(proj='utm', ellps='WGS84', zone=zone_number, south=is_south_zone)
     return local_proj
-- 
2.43.0


From b4faee0d96b15c4729fe825e42fd50a9dc1ef8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:00 +0000
Subject: [PATCH 07/91] fix: use the builtin int as index type of the ray
 caster (np.int is gone from numpy)

---
 .../abstract_earth_overhead_point_calc.py                       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
index 0266a9b..4314d49 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
@@ -362,7 +362,7 @@ class AbstractEarthOverheadPointCalc:
         all_elevations = dem.get_elevations(np.array(lons_matrix), np.array(lats_matrix), world_proj=self.get_projection())
 
         ray = np.linspace(max_alt, min_alt, n_steps_per_ray)
-        first_ray_intersect_indices = np.zeros(n_pixels_to_project, dtype=np.int)
+        first_ray_intersect_indices = np.zeros(n_pixels_to_project, dtype=int)
         ray_step_indices = list(range(n_steps_per_ray))
         ray_step_indices.reverse()
         for i in ray_step_indices:
-- 
2.43.0


From a5d15148f6a367e0967f638f410e3830b01985a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:00 +0000
Subject: [PATCH 08/91] fix: intersect rays with flat DEMs and let vertical
 rays have two samples

---
 .../abstract_earth_overhead_point_calc.py           | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
index 4314d49..140a832 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
@@ -336,9 +336,13 @@ class AbstractEarthOverheadPointCalc:
             min_alt = dem.get_lowest_alt()
         alt_range = max_alt - min_alt
 
-        # put the max and min alts at 1 percent above and below the maximum returned by the DEM
-        max_alt = max_alt + alt_range * 0.01
-        min_alt = min_alt - alt_range * 0.01
+        # put the max and min alts at 1 percent above and below the maximum returned by the DEM, and leave room for
+        # a ray to cross a DEM that is perfectly flat
+        alt_margin = alt_range * 0.01
+        if alt_margin == 0:
+            alt_margin = 1.0
+        max_alt = max_alt + alt_margin
+        min_alt = min_alt - alt_margin
 
         lons_max_alt, lats_max_alt = self.pixel_x_y_alt_to_lon_lat(pixels_x, pixels_y, max_alt, band=band)
         lons_min_alt, lats_min_alt = self.pixel_x_y_alt_to_lon_lat(pixels_x, pixels_y, min_alt, band=band)
@@ -349,7 +353,8 @@ class AbstractEarthOverheadPointCalc:
 
         ray_horizontal_lens = np.sqrt(
             np.square(lons_max_alt - lons_min_alt) + np.square(lats_max_alt - lats_min_alt))
-        n_steps_per_ray = int(np.ceil(np.max(ray_horizontal_lens) / dem_sample_distance) + 1)
+        # even vertical rays need a sample at each end
+        n_steps_per_ray = max(int(np.ceil(np.max(ray_horizontal_lens) / dem_sample_distance) + 1), 2)
 
         lons_matrix = np.zeros((n_pixels_to_project, n_steps_per_ray)) + np.linspace(0, 1, n_steps_per_ray)
         lats_matrix = np.zeros((n_pixels_to_project, n_steps_per_ray)) + np.linspace(0, 1, n_steps_per_ray)
-- 
2.43.0


From c8ca56f6f60936f9ee2e517704295bf0d0e2906c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:00 +0000
Subject: [PATCH 09/91] fix: keep the altitude of an IGM whose altitude is
 given as a single number

---
 .../earth_overhead_point_calculators/igm_point_calc.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/igm_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/igm_point_calc.py
index d5c7729..1ad7dd1 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/igm_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/igm_point_calc.py
@@ -22,7 +22,7 @@ class IGMPointCalc(AbstractEarthOverheadPointCalc):
         self._npix_y, self._npix_x = lon_array.shape
         self.set_projection(projection)
         if isinstance(alt_array, numbers.Number):
-            self._alts = numpy.zeros_like(lon_array)
+            self._alts = numpy.zeros(lon_array.shape) + alt_array
         else:
             self._alts = alt_array
         self._bands_coregistered = True
-- 
2.43.0


From 43bb49f727cfc866278059b7f7fb7a1785b9bc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:28 +0000
Subject: [PATCH 10/91] fix: solve for omega and kappa with arctan2 so that
 rounding cannot turn them into NaN

---
 resippy/utils/photogrammetry_utils.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/resippy/utils/photogrammetry_utils.py b/resippy/utils/photogrammetry_utils.py
index 6d81595..0b2b97a 100644
--- a/resippy/utils/photogrammetry_utils.py
+++ b/resippy/utils/photogrammetry_utils.py
@@ -180,18 +180,10 @@ def solve_for_omega_phi_kappa(m_matrix,  # type: ndarray
     m32 = m_matrix[2, 1]
     m21 = m_matrix[1, 0]
 
-    phi = np.arcsin(m31)
-    cos_phi = np.cos(phi)
-    kappa = np.arccos(m11 / cos_phi)
-    omega = np.arccos(m33 / cos_phi)
-    # if np.isnan(kappa):
-    #     kappa = 0
-    # if np.isnan(omega):
-    #     omega = 0
-    if m32 > 0:
-        omega = -omega
-    if m21 > 0:
-        kappa = -kappa
+    # arctan2 keeps its accuracy near 0 and 180 degrees and does not leave its domain when the entries carry rounding
+    phi = np.arcsin(np.clip(m31, -1.0, 1.0))
+    kappa = np.arctan2(0.0 - m21, m11)
+    omega = np.arctan2(0.0 - m32, m33)
 
     return omega, phi, kappa
 
-- 
2.43.0


From 8b0f046a1f3ed2150c84c45e0a2b6772a3dd0bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:28 +0000
Subject: [PATCH 11/91] fix: keep the last parameter of a pix4d camera file
 that does not end in a blank line

---
 .../earth_overhead_point_calculators/pix4d_point_calc.py        | 2 +-
 resippy/utils/pix4d_utils.py                                    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py
index 6931343..75bec1c 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py
@@ -201,7 +201,7 @@ class Pix4dPointCalc(AbstractEarthOverheadPointCalc):
                 new_camera_param_start_locations.append(i)
 
         new_camera_param_end_locations = new_camera_param_start_locations[1:]
-        new_camera_param_end_locations.append(i)
+        new_camera_param_end_locations.append(len(lines))
 
         camera_params_list = []
 
diff --git a/resippy/utils/pix4d_utils.py b/resippy/utils/pix4d_utils.py
index 90acab2..ea57875 100644
--- a/resippy/utils/pix4d_utils.py
+++ b/resippy/utils/pix4d_utils.py
@@ -235,7 +235,7 @@ def read_pix4d_calibrated_internal_camera_parameters(internal_params_cam_file,
             new_camera_param_start_locations.append(i)
 
     new_camera_param_end_locations = new_camera_param_start_locations[1:]
-    new_camera_param_end_locations.append(i)
+    new_camera_param_end_locations.append(len(lines))
 
     camera_params_list = []
 
-- 
2.43.0


From 22c5d9b21240f57e7a61c83edb308d3cdcbd380c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:41 +0000
Subject: [PATCH 12/91] fix: solve the newton step without dividing by
 d(pixel_x)/d(lon), which is zero for cameras turned by 90 degrees

---
 .../abstract_earth_overhead_point_calc.py                       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
index 140a832..1ae9c45 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
@@ -273,7 +273,7 @@ class AbstractEarthOverheadPointCalc:
             delta_py = pixel_ys - pixel_y_estimate
 
             delta_lat = (delta_py * pxx - pyx * delta_px) / (pyy * pxx - pxy * pyx)
-            delta_lon = (delta_px - delta_lat * pxy) / pxx
+            delta_lon = (delta_px * pyy - delta_py * pxy) / (pyy * pxx - pxy * pyx)
 
             new_lons = lons + delta_lon
             new_lats = lats + delta_lat
-- 
2.43.0


From d4ca77a1c6fd6cf0b4bc40c545fedebe5d6155de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:15 +0000
Subject: [PATCH 13/91] fix: read the simulated camera's roll, pitch and yaw in
 the external orientation units

---
 resippy/utils/physical_camera_simulator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resippy/utils/physical_camera_simulator.py b/resippy/utils/physical_camera_simulator.py
index 4d2cc6d..127dd37 100644
--- a/resippy/utils/physical_camera_simulator.py
+++ b/resippy/utils/physical_camera_simulator.py
@@ -90,9 +90,9 @@ class PhysicalCameraSimulator:
                                                                              order=self._boresight_rpy_order)
 
         fixtured_camera.set_fixture_orientation_by_roll_pitch_yaw(roll, pitch, yaw,
-                                                                  roll_units=self._boresight_units,
-                                                                  pitch_units=self._boresight_units,
-                                                                  yaw_units=self._boresight_units)
+                                                                  roll_units=self._external_orientation_rpy_units,
+                                                                  pitch_units=self._external_orientation_rpy_units,
+                                                                  yaw_units=self._external_orientation_rpy_units)
 
         camera_1_m_matrix = fixtured_camera.get_camera_absolute_M_matrix()
         omega, phi, kappa = photogrammetry_utils.solve_for_omega_phi_kappa(camera_1_m_matrix)
-- 
2.43.0


From bfe91dce2a9a47444865c8250824f87ba5bbdf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:15 +0000
Subject: [PATCH 14/91] fix: look up the simulated ground positions in the
 projection they are in

---
 resippy/utils/physical_camera_simulator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resippy/utils/physical_camera_simulator.py b/resippy/utils/physical_camera_simulator.py
index 127dd37..1c2fc03 100644
--- a/resippy/utils/physical_camera_simulator.py
+++ b/resippy/utils/physical_camera_simulator.py
@@ -131,7 +131,8 @@ class PhysicalCameraSimulator:
         gtiff_x_vals, gtiff_y_vals = self._gtiff_image_object.get_point_calculator().lon_lat_alt_to_pixel_x_y(
             pass1_lons,
             pass1_lats,
-            numpy.zeros_like(pass1_lons))
+            numpy.zeros_like(pass1_lons),
+            world_proj=self.world_projection)
 
         if self._gtiff_image_data is None:
             self._gtiff_image_data = self._gtiff_image_object.read_band_from_disk(0)
-- 
2.43.0


From eea3f0f75f855577b295eeed0476b963a855f834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:45 +0000
Subject: [PATCH 15/91] fix: pick the solver's step where the pixel shift is
 just over one pixel also when larger shifts overflow

---
 .../abstract_earth_overhead_point_calc.py     | 23 ++++++++++---------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
index 1ae9c45..19ca458 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
@@ -240,20 +240,21 @@ class AbstractEarthOverheadPointCalc:
             machine_pixels_lat_x_diff = machine_lat_pixels_x - machine_pixel_lon_lat[0]
             machine_pixels_lat_y_diff = machine_lat_pixels_y - machine_pixel_lon_lat[1]
 
-            # find the first index where a shift in longitude is greater than 1 pixel
-            # TODO: this is broken in some cases.  fix and add unit tests.
-            if np.isnan(machine_pixels_lon_x_diff).max() and np.isnan(machine_pixels_lon_x_diff).max():
+            # find the first index where a shift in longitude is greater than 1 pixel.  The largest shifts can overflow
+            # to NaN, those compare as False and are not selected.
+            lon_gt1_pixel_indices = np.where(np.square(machine_pixels_lon_x_diff) +
+                                             np.square(machine_pixels_lon_y_diff) > np.square(d_pixel))[0]
+
+            # find the first index where a shift in latitude is greater than 1 pixel
+            lat_gt1_pixel_indices = np.where(np.square(machine_pixels_lat_x_diff) +
+                                             np.square(machine_pixels_lat_y_diff) > np.square(d_pixel))[0]
+
+            if len(lon_gt1_pixel_indices) == 0 or len(lat_gt1_pixel_indices) == 0:
                 d_lon = 2
                 d_lat = 2
             else:
-                lon_gt1_pixel_index = (np.where(np.square(machine_pixels_lon_x_diff) +
-                                                np.square(machine_pixels_lon_y_diff) > np.square(d_pixel))[0])[0]
-                d_lon = machine_d_lons[lon_gt1_pixel_index] - approximate_lon
-
-                # find the first index where a shift in longitude is greater than 1 pixel
-                lat_gt1_pixel_index = (np.where(np.square(machine_pixels_lat_x_diff) +
-                                                np.square(machine_pixels_lat_y_diff) > np.square(d_pixel))[0])[0]
-                d_lat = machine_d_lats[lat_gt1_pixel_index] - approximate_lat
+                d_lon = machine_d_lons[lon_gt1_pixel_indices[0]] - approximate_lon
+                d_lat = machine_d_lats[lat_gt1_pixel_indices[0]] - approximate_lat
 
         for i in range(max_iter):
             pixel_x_estimate, pixel_y_estimate = self.lon_lat_alt_to_pixel_x_y(lons, lats, alts, band=band)
-- 
2.43.0


From 5d944252de71245bcf7b98bc9a4bf9e7af75ab91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:39 +0000
Subject: [PATCH 16/91] fix: weight the pixels of a bilinear DEM lookup by
 closeness instead of by distance

---
 resippy/photogrammetry/dem/geotiff_dem.py | 28 ++++++++++-------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/resippy/photogrammetry/dem/geotiff_dem.py b/resippy/photogrammetry/dem/geotiff_dem.py
index 27f66a2..469f30f 100644
--- a/resippy/photogrammetry/dem/geotiff_dem.py
+++ b/resippy/photogrammetry/dem/geotiff_dem.py
@@ -101,12 +101,15 @@ class GeotiffDem(AbstractDem):
             pixel_locs_y = np.clip(pixel_locs_y.astype(int), a_min=0, a_max=self.gtiff.get_metadata().get_npix_y()-1)
             elevations = self.dem_data[pixel_locs_y, pixel_locs_x]
         elif self.get_interpolation_method() is 'bilinear':
-            # Do a bilinear interpolation between closest pixels by taking a weighted average
-            pixel_locs_x_1 = np.clip(pixel_locs_x.astype(int), a_min=0, a_max=self.gtiff.get_metadata().get_npix_x() - 1)
-            pixel_locs_y_1 = np.clip(pixel_locs_y.astype(int), a_min=0, a_max=self.gtiff.get_metadata().get_npix_y() - 1)
+            # Do a bilinear interpolation between the closest pixels, positions outside of the DEM take the nearest edge
+            pixel_locs_x = np.clip(pixel_locs_x, a_min=0, a_max=self.gtiff.get_metadata().get_npix_x() - 1)
+            pixel_locs_y = np.clip(pixel_locs_y, a_min=0, a_max=self.gtiff.get_metadata().get_npix_y() - 1)
 
-            pixel_locs_x_2 = np.clip(np.ceil(pixel_locs_x).astype(int), a_min=0, a_max=self.gtiff.get_metadata().get_npix_x() - 1)
-            pixel_locs_y_2 = np.clip(np.ceil(pixel_locs_y).astype(int), a_min=0, a_max=self.gtiff.get_metadata().get_npix_y() - 1)
+            pixel_locs_x_1 = pixel_locs_x.astype(int)
+            pixel_locs_y_1 = pixel_locs_y.astype(int)
+
+            pixel_locs_x_2 = np.ceil(pixel_locs_x).astype(int)
+            pixel_locs_y_2 = np.ceil(pixel_locs_y).astype(int)
 
             elevations_y1x1 = self.dem_data[pixel_locs_y_1, pixel_locs_x_1]
             elevations_y1x2 = self.dem_data[pixel_locs_y_1, pixel_locs_x_2]
@@ -114,19 +117,12 @@ class GeotiffDem(AbstractDem):
             elevations_y2x2 = self.dem_data[pixel_locs_y_2, pixel_locs_x_2]
 
             x_distances_1 = pixel_locs_x - pixel_locs_x_1
-            x_distances_2 = pixel_locs_x_2 - pixel_locs_x
             y_distances_1 = pixel_locs_y - pixel_locs_y_1
-            y_distances_2 = pixel_locs_y_2 - pixel_locs_y
-
-            distances_y1x1 = np.sqrt(np.square(y_distances_1) + np.square(x_distances_1))
-            distances_y1x2 = np.sqrt(np.square(y_distances_1) + np.square(x_distances_2))
-            distances_y2x1 = np.sqrt(np.square(y_distances_2) + np.square(x_distances_1))
-            distances_y2x2 = np.sqrt(np.square(y_distances_2) + np.square(x_distances_2))
-
-            elevations_arr = np.array((elevations_y1x1, elevations_y1x2, elevations_y2x1, elevations_y2x2))
-            weights_arr = np.array((distances_y1x1, distances_y1x2, distances_y2x1, distances_y2x2))
 
-            elevations = np.average(elevations_arr, weights=weights_arr, axis=0,)
+            elevations = (elevations_y1x1 * (1 - y_distances_1) * (1 - x_distances_1) +
+                          elevations_y1x2 * (1 - y_distances_1) * x_distances_1 +
+                          elevations_y2x1 * y_distances_1 * (1 - x_distances_1) +
+                          elevations_y2x2 * y_distances_1 * x_distances_1)
 
         else:
             TypeError("interpolation must be set to either 'nearest' or 'bilinear' "
-- 
2.43.0


From b1c59c58a2b57951b5cb2f7d873f2c3b74c10a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:39 +0000
Subject: [PATCH 17/91] fix: let DEMs stored as integers have a nodata value

---
 resippy/photogrammetry/dem/geotiff_dem.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resippy/photogrammetry/dem/geotiff_dem.py b/resippy/photogrammetry/dem/geotiff_dem.py
index 469f30f..0cfbc31 100644
--- a/resippy/photogrammetry/dem/geotiff_dem.py
+++ b/resippy/photogrammetry/dem/geotiff_dem.py
@@ -64,6 +64,9 @@ class GeotiffDem(AbstractDem):
         self.nodata_value = nodata_value
         if self.nodata_value is not None:
             if self.dem_data is not None:
+                if not np.issubdtype(self.dem_data.dtype, np.floating):
+                    # integers can't hold NaN
+                    self.dem_data = self.dem_data.astype(float)
                 self.dem_data[np.where(self.dem_data == nodata_value)] = np.nan
 
     def set_geotiff_image(self,
-- 
2.43.0


From 39b7d73687be3c3ecbf0e9febc3161d4a3d53923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:39 +0000
Subject: [PATCH 18/91] fix: keep both axes of a DEM that is one pixel wide or
 high

---
 resippy/photogrammetry/dem/geotiff_dem.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resippy/photogrammetry/dem/geotiff_dem.py b/resippy/photogrammetry/dem/geotiff_dem.py
index 0cfbc31..85303ff 100644
--- a/resippy/photogrammetry/dem/geotiff_dem.py
+++ b/resippy/photogrammetry/dem/geotiff_dem.py
@@ -73,7 +73,9 @@ class GeotiffDem(AbstractDem):
                           geotiff_image  # type: GeotiffImage
                           ):  # type: (...) -> None
         self.gtiff = geotiff_image
-        self.dem_data = np.squeeze(self.gtiff.read_all_image_data_from_disk())
+        self.dem_data = self.gtiff.read_all_image_data_from_disk()
+        if np.ndim(self.dem_data) == 3 and np.shape(self.dem_data)[2] == 1:
+            self.dem_data = self.dem_data[:, :, 0]
         self.set_projection(self.gtiff.get_point_calculator().get_projection())
         self.remove_nodata_values(self.nodata_value)
 
-- 
2.43.0


From 97ccea8e4d689b51c8fa8cab8e1bf37e7ee00af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:39 +0000
Subject: [PATCH 19/91] fix: raise the TypeError for an unknown DEM
 interpolation method

---
 resippy/photogrammetry/dem/dem_factory.py | 2 +-
 resippy/photogrammetry/dem/geotiff_dem.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/resippy/photogrammetry/dem/dem_factory.py b/resippy/photogrammetry/dem/dem_factory.py
index eaf753c..49eec31 100644
--- a/resippy/photogrammetry/dem/dem_factory.py
+++ b/resippy/photogrammetry/dem/dem_factory.py
@@ -25,7 +25,7 @@ class DemFactory:
         elif interpolation_method == 'nearest':
             gtiff_dem.set_interpolation_to_nearest()
         else:
-            TypeError("interpolation method should either be 'bilinear' or 'nearest'")
+            raise TypeError("interpolation method should either be 'bilinear' or 'nearest'")
         return gtiff_dem
 
     @staticmethod
diff --git a/resippy/photogrammetry/dem/geotiff_dem.py b/resippy/photogrammetry/dem/geotiff_dem.py
index 85303ff..c4b55b8 100644
--- a/resippy/photogrammetry/dem/geotiff_dem.py
+++ b/resippy/photogrammetry/dem/geotiff_dem.py
@@ -130,8 +130,8 @@ class GeotiffDem(AbstractDem):
                           elevations_y2x2 * y_distances_1 * x_distances_1)
 
         else:
-            TypeError("interpolation must be set to either 'nearest' or 'bilinear' "
-                      "when getting elevations from a GeoTiff DEM")
+            raise TypeError("interpolation must be set to either 'nearest' or 'bilinear' "
+                            "when getting elevations from a GeoTiff DEM")
 
         # unflatten world_xyz arrays if the original inputs were 2d
         if world_xyz_is_2d:
-- 
2.43.0


From 1c8123f86e23f8f9e51362ebb4e22f2eb2c9a238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:39 +0000
Subject: [PATCH 20/91] fix: initialize projection and vertical reference of
 new DEMs

---
 resippy/photogrammetry/dem/constant_elevation_dem.py | 1 +
 resippy/photogrammetry/dem/geotiff_dem.py            | 1 +
 2 files changed, 2 insertions(+)

diff --git a/resippy/photogrammetry/dem/constant_elevation_dem.py b/resippy/photogrammetry/dem/constant_elevation_dem.py
index ce82fd2..a120947 100644
--- a/resippy/photogrammetry/dem/constant_elevation_dem.py
+++ b/resippy/photogrammetry/dem/constant_elevation_dem.py
@@ -8,6 +8,7 @@ import resippy.photogrammetry.crs_defs as crs_defs
 
 class ConstantElevationDem(AbstractDem):
     def __init__(self, elevation=0):
+        super(ConstantElevationDem, self).__init__()
         self.elevation = elevation
 
     def get_elevations(self,
diff --git a/resippy/photogrammetry/dem/geotiff_dem.py b/resippy/photogrammetry/dem/geotiff_dem.py
index c4b55b8..5bbc701 100644
--- a/resippy/photogrammetry/dem/geotiff_dem.py
+++ b/resippy/photogrammetry/dem/geotiff_dem.py
@@ -10,6 +10,7 @@ import gdal
 
 class GeotiffDem(AbstractDem):
     def __init__(self):
+        super(GeotiffDem, self).__init__()
         self.dem_data = None
         self.gtiff = GeotiffImage
         self.nodata_value = None
-- 
2.43.0


From 7956ec39752cc21c59b6f0a405b9c01504c5f4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:09 +0000
Subject: [PATCH 21/91] fix: return the elevation of a single position array in
 the shape of that array

---
 resippy/photogrammetry/dem/geotiff_dem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/photogrammetry/dem/geotiff_dem.py b/resippy/photogrammetry/dem/geotiff_dem.py
index 5bbc701..d85e028 100644
--- a/resippy/photogrammetry/dem/geotiff_dem.py
+++ b/resippy/photogrammetry/dem/geotiff_dem.py
@@ -138,7 +138,7 @@ class GeotiffDem(AbstractDem):
         if world_xyz_is_2d:
             elevations = np.reshape(elevations, (ny, nx))
         else:
-            elevations = np.squeeze(elevations)
+            elevations = np.reshape(elevations, np.shape(world_x))
         return elevations
 
     def get_highest_alt(self):  # type: (...) -> float
-- 
2.43.0


From 23e0be3d1114cffc22f1b5d7d27d67f217c93260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:26 +0000
Subject: [PATCH 22/91] fix: measure the DEM sample distance of a ray in meters
 also for sensor models in degrees

---
 .../abstract_earth_overhead_point_calc.py                     | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
index 19ca458..440395e 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
@@ -354,6 +354,10 @@ class AbstractEarthOverheadPointCalc:
 
         ray_horizontal_lens = np.sqrt(
             np.square(lons_max_alt - lons_min_alt) + np.square(lats_max_alt - lats_min_alt))
+        if self.get_projection().crs.is_geographic:
+            # the DEM sample distance is in meters, also if the native positions are in degrees
+            ray_horizontal_lens = self.get_projection().crs.get_geod().inv(lons_max_alt, lats_max_alt,
+                                                                           lons_min_alt, lats_min_alt)[2]
         # even vertical rays need a sample at each end
         n_steps_per_ray = max(int(np.ceil(np.max(ray_horizontal_lens) / dem_sample_distance) + 1), 2)
 
-- 
2.43.0


From f3494addcbaa52957895e26ad7eab6061ebdafca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:07 +0000
Subject: [PATCH 23/91] fix: let the geotransform of a world polygon span the
 polygon, as the ground grid does

---
 resippy/utils/photogrammetry_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/photogrammetry_utils.py b/resippy/utils/photogrammetry_utils.py
index 0b2b97a..b879484 100644
--- a/resippy/utils/photogrammetry_utils.py
+++ b/resippy/utils/photogrammetry_utils.py
@@ -40,8 +40,8 @@ def world_poly_to_geo_t(world_polygon,      # type: Polygon
                         ):                  # type: (...) -> list
     envelope = world_polygon.envelope
     minx, miny, maxx, maxy = envelope.bounds
-    gsd_x = (maxx - minx)/(npix_x + 1)
-    gsd_y = (maxy - miny)/(npix_y + 1)
+    gsd_x = (maxx - minx)/npix_x
+    gsd_y = (maxy - miny)/npix_y
     geot = [minx, gsd_x, 0, maxy, 0, -1*gsd_y]
     return geot
 
-- 
2.43.0


From f89885b755f807441f4f48d962bea557fcce6b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:07 +0000
Subject: [PATCH 24/91] fix: create ground grids that are one pixel wide or
 high

---
 resippy/utils/photogrammetry_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/photogrammetry_utils.py b/resippy/utils/photogrammetry_utils.py
index b879484..c84dbe2 100644
--- a/resippy/utils/photogrammetry_utils.py
+++ b/resippy/utils/photogrammetry_utils.py
@@ -59,8 +59,8 @@ def create_ground_grid(min_x,   # type: float
     ground_y_arr = ground_y_arr/npix_y*(max_y - min_y)
     ground_x_arr = ground_x_arr + min_x
     ground_y_arr = ground_y_arr + min_y
-    x_gsd = np.abs(ground_x_arr[0, 1] - ground_x_arr[0, 0])
-    y_gsd = np.abs(ground_y_arr[0, 0] - ground_y_arr[1, 0])
+    x_gsd = np.abs(max_x - min_x)/npix_x
+    y_gsd = np.abs(max_y - min_y)/npix_y
     return ground_x_arr + x_gsd/2.0, ground_y_arr - y_gsd/2.0
 
 
-- 
2.43.0


From bd978f54701d03d3e6bb8c97c55a575095c2dd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:07 +0000
Subject: [PATCH 25/91] fix: do not lose a pixel of an extent that holds a
 whole number of pixels to rounding

---
 resippy/utils/photogrammetry_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/photogrammetry_utils.py b/resippy/utils/photogrammetry_utils.py
index c84dbe2..7d8e802 100644
--- a/resippy/utils/photogrammetry_utils.py
+++ b/resippy/utils/photogrammetry_utils.py
@@ -72,11 +72,11 @@ def get_nx_ny_pixels_in_extent(extent,  # type: Polygon
 
     x = coords[0]
     width = max(x) - min(x)
-    nx = int(width / gsd_x)
+    nx = int(width / gsd_x + 1e-6)
 
     y = coords[1]
     height = max(y) - min(y)
-    ny = int(height / gsd_y)
+    ny = int(height / gsd_y + 1e-6)
 
     return nx, ny
 
-- 
2.43.0


From 8c6970a728c5eb0cb847aaab9543e6ee9bb3b9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:27 +0000
Subject: [PATCH 26/91] fix: give the world extent of a rotated geotiff by its
 corners

---
 .../geotiff_point_calc.py                                 | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/geotiff_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/geotiff_point_calc.py
index 25d1639..5ee3d13 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/geotiff_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/geotiff_point_calc.py
@@ -5,7 +5,7 @@ from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstr
 import gdal
 import osr
 from pyproj import Proj
-from shapely.geometry.geo import box, Polygon
+from shapely.geometry.geo import Polygon
 import numpy as np
 from numpy import ndarray
 
@@ -134,7 +134,7 @@ class GeotiffPointCalc(AbstractEarthOverheadPointCalc):
         return srs.ExportToWkt()
 
     def get_world_extent_native(self):  # type: (...) -> Polygon
-        lon_ul, lat_ul = self._pixel_x_y_alt_to_lon_lat_native(0, 0)
-        lon_br, lat_br = self._pixel_x_y_alt_to_lon_lat_native(self._npix_x, self._npix_y)
-        world_poly = box(lon_ul, lat_br, lon_br, lat_ul)
+        # the image may be rotated or sheared, so go around its corners
+        corners = [(0, 0), (0, self._npix_y), (self._npix_x, self._npix_y), (self._npix_x, 0)]
+        world_poly = Polygon([self._pixel_x_y_alt_to_lon_lat_native(x, y) for x, y in corners])
         return world_poly
-- 
2.43.0


From b7066af1765779327ec80c4c9035ff86ae3ad907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:27 +0000
Subject: [PATCH 27/91] fix: use the builtin int in get_pixel_values (np.int is
 gone from numpy)

---
 resippy/photogrammetry/ortho_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index 6c5443b..094e3bd 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -34,12 +34,12 @@ def get_pixel_values(image_object,  # type: AbstractEarthOverheadImage
                      ):  # type: (...) -> ndarray
 
     nodata = image_object.get_metadata().get_nodata_val()
-    wh = np.round(window/2.0).astype(np.int)
+    wh = int(np.round(window/2.0))
     pix_vals = []
     for band in range(image_object.get_metadata().get_n_bands()):
         img = image_object.read_band_from_disk(band)
         x, y = image_object.get_point_calculator().lon_lat_alt_to_pixel_x_y(lons, lats, alts, band=band)
-        locs = zip(np.round(x).astype(np.int), np.round(y).astype(np.int))
+        locs = zip(np.round(x).astype(int), np.round(y).astype(int))
         vals = []
         for item in locs:
             try:
-- 
2.43.0


From e6291a4568b1c3d2c686901987f08f3d6b90c47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:27 +0000
Subject: [PATCH 28/91] fix: do not take pixel values from the opposite side of
 the image

---
 resippy/photogrammetry/ortho_tools.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index 094e3bd..b63e6df 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -43,10 +43,11 @@ def get_pixel_values(image_object,  # type: AbstractEarthOverheadImage
         vals = []
         for item in locs:
             try:
-                xmin = item[0] - wh
-                xmax = item[0] + wh
-                ymin = item[1] - wh
-                ymax = item[1] + wh
+                # negative indices would count from the other side of the image
+                xmin = max(item[0] - wh, 0)
+                xmax = max(item[0] + wh, 0)
+                ymin = max(item[1] - wh, 0)
+                ymax = max(item[1] + wh, 0)
                 pix_win = img[ymin:ymax, xmin:xmax]
                 good_inds = pix_win != nodata
                 val = np.mean(pix_win[good_inds])
-- 
2.43.0


From 2804cb532104ff18ad9b077e02dd92a7692950cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:27 +0000
Subject: [PATCH 29/91] fix: look up elevations in the projection of the image
 when the extent is determined

---
 resippy/photogrammetry/ortho_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index b63e6df..fb28521 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -81,7 +81,7 @@ def get_pixel_lon_lats(overhead_image,  # type: AbstractEarthOverheadImage
                                                                      pixel_error_threshold=pixel_error_threshold,
                                                                      max_iter=max_iter)
     # get differences from the highest alt using the dem
-    alt_diff = alts - dem.get_elevations(lons_highest, lats_highest)
+    alt_diff = alts - dem.get_elevations(lons_highest, lats_highest, point_calc.get_projection())
     new_alts = alts - alt_diff
     lons_low, lats_low = point_calc.pixel_x_y_alt_to_lon_lat(pixels_x, pixels_y, new_alts,
                                                              band=band,
-- 
2.43.0


From b9df1e5212879539bff495f55115373c8eb3f692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:27 +0000
Subject: [PATCH 30/91] fix: simplify image extents relative to their size,
 0.001 degrees cut off the corners of small images

---
 resippy/photogrammetry/ortho_tools.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index fb28521..3f6ad0a 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -372,9 +372,10 @@ def get_extent(overhead_image,  # type: AbstractEarthOverheadImage
         all_band_lats = np.append(all_band_lats, lats)
 
     extents = [(MultiPoint(list(zip(all_band_lons, all_band_lats))))]
-    # TODO, check into whether we can get rid of this tolerance, also, this isn't a very good approach, since it assumes
-    # TODO a particular CRS (probably 4326)
-    return unary_union(extents).convex_hull.simplify(0.001)
+    # the tolerance is relative, since native coordinates may be degrees or meters
+    hull = unary_union(extents).convex_hull
+    minx, miny, maxx, maxy = hull.bounds
+    return hull.simplify(1e-6 * max(maxx - minx, maxy - miny))
 
 
 def are_pixels_obstructed_by_dem(earth_overhead_image,      # type: AbstractEarthOverheadImage
-- 
2.43.0


From 91c6bacaf93f49cef338aa8f991abc7ad7edab2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:27 +0000
Subject: [PATCH 31/91] fix: mark pixels outside of images whose bands are not
 coregistered as nodata

---
 resippy/photogrammetry/ortho_tools.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index 3f6ad0a..c97c8c4 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -217,6 +217,12 @@ def create_ortho_gtiff_image_world_to_sensor(overhead_image,  # type: AbstractEa
 
             regridded = image_utils.unflatten_image_band(regridded, ortho_nx_pix, ortho_ny_pix)
             regridded = regridded.astype(im_tp)
+
+            regridded[np.where(pixels_x <= 0)] = nodata_val
+            regridded[np.where(pixels_x >= overhead_image.metadata.get_npix_x() - 2)] = nodata_val
+
+            regridded[np.where(pixels_y <= 0)] = nodata_val
+            regridded[np.where(pixels_y >= overhead_image.metadata.get_npix_y() - 2)] = nodata_val
             images.append(regridded)
     else:
         pixels_x, pixels_y = overhead_image.get_point_calculator(). \
-- 
2.43.0


From 08c03f02a233a5296b4cc5b246015fa909018762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:47 +0000
Subject: [PATCH 32/91] fix: search for obstructions between the ground and the
 camera instead of behind the ground position

---
 resippy/photogrammetry/ortho_tools.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index c97c8c4..177103f 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -397,25 +397,29 @@ def are_pixels_obstructed_by_dem(earth_overhead_image,      # type: AbstractEart
     DEFAULT_DEM_RESOLUTION = 5
     if dem_resolution is None:
         dem_resolution = DEFAULT_DEM_RESOLUTION
-    highest_alts = np.zeros_like(pixels_x)
+    native_proj = earth_overhead_image.get_point_calculator().get_projection()
+    highest_alts = np.zeros(np.shape(pixels_x))
     highest_alts[:] = dem.get_highest_alt() + 0.001
 
     if alts is None:
-        alts = dem.get_elevations(lons, lats)
+        alts = dem.get_elevations(lons, lats, native_proj)
 
     obstructed_mask = np.zeros_like(lons)
 
     lons_highest, lats_highest = earth_overhead_image.get_point_calculator().pixel_x_y_alt_to_lon_lat(pixels_x, pixels_y, highest_alts, band=band)
-    lon_diffs = lons - lons_highest
-    lat_diffs = lats - lats_highest
-    horizontal_distances = np.sqrt(np.square(lon_diffs + lat_diffs))
+    lon_diffs = lons_highest - lons
+    lat_diffs = lats_highest - lats
+    if native_proj.crs.is_geographic:
+        horizontal_distances = native_proj.crs.get_geod().inv(lons, lats, lons_highest, lats_highest)[2]
+    else:
+        horizontal_distances = np.sqrt(np.square(lon_diffs) + np.square(lat_diffs))
     vertical_distances = highest_alts - alts
     max_horizontal_distance = horizontal_distances.max()
     n_dem_steps = max_horizontal_distance / dem_resolution
     for step in np.arange(1, n_dem_steps):
         test_lons = lons + lon_diffs * (step) / n_dem_steps
         test_lats = lats + lat_diffs * (step) / n_dem_steps
-        test_alts = dem.get_elevations(test_lons, test_lats)
+        test_alts = dem.get_elevations(test_lons, test_lats, native_proj)
         obstruction_heights = alts + vertical_distances * step / n_dem_steps
         obstructed_mask[np.where(test_alts > obstruction_heights)] = 1
     return obstructed_mask
-- 
2.43.0


From f85d09eabe3ac2d17b9ff41c63c654f629411733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:47 +0000
Subject: [PATCH 33/91] fix: make full orthos of images in degrees and in other
 output projections

---
 resippy/photogrammetry/ortho_tools.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index 177103f..915090d 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -17,7 +17,7 @@ from resippy.image_objects.earth_overhead.geotiff.geotiff_image import GeotiffIm
 from resippy.image_objects.earth_overhead.igm.igm_image import IgmImage
 from resippy.photogrammetry.dem.abstract_dem import AbstractDem
 from resippy.photogrammetry import crs_defs as crs_defs
-from resippy.utils.photogrammetry_utils import create_ground_grid, world_poly_to_geo_t
+from resippy.utils.photogrammetry_utils import create_ground_grid, world_poly_to_geo_t, reproject_geometry
 from resippy.utils import proj_utils
 from pyproj import transform
 from resippy.photogrammetry.dem.dem_factory import DemFactory
@@ -123,14 +123,16 @@ def create_full_ortho_gtiff_image(overhead_image,  # type: AbstractEarthOverhead
     native_lon, native_lat = extent.bounds[0], extent.bounds[1]
     lon_4326, lat_4326 = transform(overhead_image.pointcalc.get_projection(), crs_defs.PROJ_4326, native_lon, native_lat)
     local_proj = proj_utils.decimal_degrees_to_local_utm_proj(lon_4326, lat_4326)
+    if output_proj is None:
+        output_proj = overhead_image.pointcalc.get_projection()
     if gsd_meters is None:
         nx = overhead_image.metadata.get_npix_x()
         ny = overhead_image.metadata.get_npix_y()
         native_lons, native_lats = get_pixel_lon_lats(overhead_image,
                                                       dem,
-                                                      bands,
-                                                      pixels_x=[0, nx-1, 0],
-                                                      pixels_y=[0, 0, ny-1])
+                                                      0 if bands is None else bands[0],
+                                                      pixels_x=np.array([0, nx-1, 0]),
+                                                      pixels_y=np.array([0, 0, ny-1]))
         local_lons, local_lats = transform(overhead_image.pointcalc.get_projection(), local_proj, native_lons, native_lats)
         distance_along_x = math.sqrt((local_lons[1] - local_lons[0]) ** 2 + (local_lats[1] - local_lats[0]) ** 2)
         distance_along_y = math.sqrt((local_lons[2] - local_lons[0]) ** 2 + (local_lats[2] - local_lats[0]) ** 2)
@@ -138,14 +140,17 @@ def create_full_ortho_gtiff_image(overhead_image,  # type: AbstractEarthOverhead
         gsd_y = distance_along_y / ny
         gsd_meters = (gsd_x + gsd_y) / 2.0
 
-    ortho_x_dist = np.abs(extent.bounds[2] - extent.bounds[0])
-    ortho_y_dist = np.abs(extent.bounds[3] - extent.bounds[1])
+    extent = reproject_geometry(extent, overhead_image.pointcalc.get_projection(), output_proj)
+    extent_meters = extent
+    if output_proj.crs.is_geographic:
+        extent_meters = reproject_geometry(extent, output_proj, local_proj)
+
+    ortho_x_dist = np.abs(extent_meters.bounds[2] - extent_meters.bounds[0])
+    ortho_y_dist = np.abs(extent_meters.bounds[3] - extent_meters.bounds[1])
 
     ortho_nx = int(ortho_x_dist / gsd_meters)
     ortho_ny = int(ortho_y_dist / gsd_meters)
 
-    if output_proj is None:
-        output_proj = overhead_image.pointcalc.get_projection()
     return create_ortho_gtiff_image_world_to_sensor(overhead_image,
                                                     ortho_nx,
                                                     ortho_ny,
-- 
2.43.0


From d5636461bf4b5257a62eef615873df3e608f3ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:57 +0000
Subject: [PATCH 34/91] fix: mark ortho pixels without an elevation as nodata

---
 resippy/photogrammetry/ortho_tools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index 915090d..2dece7e 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -228,6 +228,7 @@ def create_ortho_gtiff_image_world_to_sensor(overhead_image,  # type: AbstractEa
 
             regridded[np.where(pixels_y <= 0)] = nodata_val
             regridded[np.where(pixels_y >= overhead_image.metadata.get_npix_y() - 2)] = nodata_val
+            regridded[np.where(np.isnan(pixels_x) | np.isnan(pixels_y))] = nodata_val
             images.append(regridded)
     else:
         pixels_x, pixels_y = overhead_image.get_point_calculator(). \
@@ -252,6 +253,7 @@ def create_ortho_gtiff_image_world_to_sensor(overhead_image,  # type: AbstractEa
 
             regridded[np.where(pixels_y <= 0)] = nodata_val
             regridded[np.where(pixels_y >= overhead_image.metadata.get_npix_y() - 2)] = nodata_val
+            regridded[np.where(np.isnan(pixels_x) | np.isnan(pixels_y))] = nodata_val
             images.append(regridded)
 
     orthorectified_image = np.stack(images, axis=2)
-- 
2.43.0


From fe77d9a7776123602285e9fe6e36d19958e51ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:13 +0000
Subject: [PATCH 35/91] fix: create_igm_image of an image that is not loaded
 raised instead of reading it from disk

---
 resippy/photogrammetry/ortho_tools.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index 2dece7e..6464ea9 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -102,11 +102,14 @@ def create_igm_image(overhead_image,    # type: AbstractEarthOverheadImage
                                                                          pixels_y,
                                                                          dem,
                                                                          dem_sample_distance=dem_sample_distance)
-    igm_image = IgmImage.from_params(overhead_image.get_image_data(),
+    image_data = overhead_image.get_image_data()
+    if image_data is None:
+        image_data = overhead_image.read_all_image_data_from_disk()
+    igm_image = IgmImage.from_params(image_data,
                                      lons,
                                      lats,
                                      alts,
-                                     overhead_image.get_image_data().shape[2],
+                                     image_data.shape[2],
                                      overhead_image.pointcalc.get_projection())
     return igm_image
 
-- 
2.43.0


From c7c84fbc071b66216ffd062a1a5cf06dff1fb008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:14 +0000
Subject: [PATCH 36/91] fix: chipping all bands of an image raised (np.int)

---
 resippy/utils/image_utils/image_chipper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/utils/image_utils/image_chipper.py b/resippy/utils/image_utils/image_chipper.py
index afe9b84..d4718f0 100644
--- a/resippy/utils/image_utils/image_chipper.py
+++ b/resippy/utils/image_utils/image_chipper.py
@@ -86,7 +86,7 @@ def chip_images_by_pixel_upper_lefts(input_image,                   # type: ndar
     n_chips = len(pixel_y_ul_list)
 
     if bands is None:
-        bands = np.arange(0, nbands).astype(np.int)
+        bands = np.arange(0, nbands)
     else:
         nbands = len(bands)
 
-- 
2.43.0


From aba349ed45eff476aec1f0803ea49d299737a3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:14 +0000
Subject: [PATCH 37/91] fix: grayscale chips could not be written to disk

---
 resippy/utils/image_utils/image_chipper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/image_utils/image_chipper.py b/resippy/utils/image_utils/image_chipper.py
index d4718f0..eb36858 100644
--- a/resippy/utils/image_utils/image_chipper.py
+++ b/resippy/utils/image_utils/image_chipper.py
@@ -146,10 +146,10 @@ def write_chips_to_disk(image_chips,            # type: ndarray
         base_chip_fname = os.path.basename(output_dir)
     n_chips = get_nchips(image_chips)
     for i in range(n_chips):
-        chip = image_chips[i, :, :, :]
+        chip = image_chips[i]
         if output_chip_ny is not None:
             chip = image_utils.resize_image(chip, output_chip_ny, output_chip_nx)
-        if remove_alpha is True and chip.shape[-1] == 4:
+        if remove_alpha is True and chip.ndim == 3 and chip.shape[-1] == 4:
             chip = chip[:, :, 0:3]
         chip_fname = base_chip_fname + "_" + str(i).zfill(8)
         if fnames_list is not None:
-- 
2.43.0


From 2ce6b7d2204defb6e0fd3a0552dfdc20109ff7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:17 +0000
Subject: [PATCH 38/91] fix: ENVI data types 6 and 9 are single and double
 precision complex

---
 resippy/utils/envi_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/envi_utils.py b/resippy/utils/envi_utils.py
index a6260d9..3fa4e9d 100644
--- a/resippy/utils/envi_utils.py
+++ b/resippy/utils/envi_utils.py
@@ -8,10 +8,10 @@ ENVI_DTYPES_TO_NUMPY = {"1": np.uint8,
                         "3": np.int32,
                         "4": np.float32,
                         "5": np.float64,
-                        "6": None,
+                        "6": np.complex64,
                         "7": None,
                         "8": None,
-                        "9": np.complex64,
+                        "9": np.complex128,
                         "10": None,
                         "11": None,
                         "12": np.uint16,
-- 
2.43.0


From 41bf36922ea0562686d080ee21b3b6eab9f8065d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:17 +0000
Subject: [PATCH 39/91] fix: ENVI images with bip or bsq interleave were
 written and read as zeros

---
 resippy/utils/envi_utils.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/resippy/utils/envi_utils.py b/resippy/utils/envi_utils.py
index 3fa4e9d..a91f65b 100644
--- a/resippy/utils/envi_utils.py
+++ b/resippy/utils/envi_utils.py
@@ -182,7 +182,6 @@ def write_envi_header(header_dict,      # type: dict
             f.write("\n")
 
 
-# TODO: add more interleave formats, only BIP is currently supported
 def write_envi_image(image_cube,                    # type: np.ndarray
                      output_fname,                  # type: str
                      output_header_fname=None,      # type: str
@@ -199,6 +198,12 @@ def write_envi_image(image_cube,                    # type: np.ndarray
                 data_chunk = image_cube[l, :, b]
                 raw_data[raw_data_counter:raw_data_counter+nx] = data_chunk
                 raw_data_counter = raw_data_counter+nx
+    elif interleave == 'bip':
+        raw_data[:] = image_cube.ravel()
+    elif interleave == 'bsq':
+        raw_data[:] = np.moveaxis(image_cube, 2, 0).ravel()
+    else:
+        raise ValueError("Interleave not supported: " + interleave)
     raw_data.tofile(output_fname)
 
     envi_dtype = numpy_dtype_to_envi_dtype(image_cube.dtype)
@@ -256,4 +261,10 @@ def construct_image_cube_from_raw_data(raw_envi_data,       # type: np.ndarray
                 data_chunk = raw_envi_data[raw_data_counter:raw_data_counter+nx]
                 image_cube[l, :, b] = data_chunk
                 raw_data_counter = raw_data_counter+nx
+    elif interleave == 'bip':
+        image_cube[:] = np.reshape(raw_envi_data, (ny, nx, nbands))
+    elif interleave == 'bsq':
+        image_cube[:] = np.moveaxis(np.reshape(raw_envi_data, (nbands, ny, nx)), 0, 2)
+    else:
+        raise ValueError("Interleave not supported: " + interleave)
     return image_cube
-- 
2.43.0


From 75931940bc172ce5ecb6fa6240ed0ab211625983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:17 +0000
Subject: [PATCH 40/91] fix: the byte order and header offset of ENVI images
 were ignored

---
 resippy/utils/envi_utils.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/resippy/utils/envi_utils.py b/resippy/utils/envi_utils.py
index a91f65b..5b2f40b 100644
--- a/resippy/utils/envi_utils.py
+++ b/resippy/utils/envi_utils.py
@@ -234,17 +234,22 @@ def read_envi_image(image_file,             # type: str
     nbands = int(envi_header['bands'])
     envi_dtype = envi_header['data type']
     interleave = envi_header['interleave']
-    envi_image_data = read_all_image_data_to_numpy_array(image_file, envi_dtype)
+    envi_image_data = read_all_image_data_to_numpy_array(image_file, envi_dtype,
+                                                         byte_order=envi_header.get('byte order', 0),
+                                                         header_offset=envi_header.get('header offset', 0))
     image_cube = construct_image_cube_from_raw_data(envi_image_data, nx, ny, nbands, interleave)
     return image_cube
 
 
 def read_all_image_data_to_numpy_array(envi_image_path,     # type: str
                                        envi_dtype,          # type: int
+                                       byte_order=0,        # type: int
+                                       header_offset=0,     # type: int
                                        ):                   # type: (...) -> np.ndarray
     numpy_dtype = envi_dtype_to_numpy_dtype(envi_dtype)
-    numpy_data = np.fromfile(envi_image_path, numpy_dtype)
-    return numpy_data
+    file_dtype = np.dtype(numpy_dtype).newbyteorder('>' if byte_order == 1 else '<')
+    numpy_data = np.fromfile(envi_image_path, file_dtype, offset=header_offset)
+    return numpy_data.astype(numpy_dtype)
 
 
 def construct_image_cube_from_raw_data(raw_envi_data,       # type: np.ndarray
-- 
2.43.0


From 6d9f7f94de49b232cf6764494c6434f4c98dbcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:17 +0000
Subject: [PATCH 41/91] fix: the last line of an ENVI header without a trailing
 newline was dropped

---
 resippy/utils/envi_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resippy/utils/envi_utils.py b/resippy/utils/envi_utils.py
index 5b2f40b..34b659b 100644
--- a/resippy/utils/envi_utils.py
+++ b/resippy/utils/envi_utils.py
@@ -88,6 +88,8 @@ def read_envi_header(header_fname,      # type: str
         header_text = content_file.read()
 
     header_text = string_utils.cleanup_newlines(header_text)
+    if not header_text.endswith(os.linesep):
+        header_text = header_text + os.linesep
 
     envi_header_dict = {}
 
-- 
2.43.0


From 03b061998db4f264c59047b7e6b79f03e473d41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:17 +0000
Subject: [PATCH 42/91] fix: ENVI header values with an equals sign raised

---
 resippy/utils/envi_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/utils/envi_utils.py b/resippy/utils/envi_utils.py
index 34b659b..1569bc0 100644
--- a/resippy/utils/envi_utils.py
+++ b/resippy/utils/envi_utils.py
@@ -133,7 +133,7 @@ def read_envi_header(header_fname,      # type: str
         elif is_equals_entry(header_text):
             linesep_index = header_text.find(os.linesep)
             entry_text = header_text[0:linesep_index]
-            key, val = entry_text.split('=')
+            key, val = entry_text.split('=', 1)
             header_text = header_text[linesep_index + 1:]
 
         elif entry_has_newline(header_text):
-- 
2.43.0


From 930c94193aec925e19bb6181e34ae8bcf7a74020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:17 +0000
Subject: [PATCH 43/91] fix: ENVI header values in braces lost the closing
 brace and lists were written without braces, so that written headers could
 not be read

---
 resippy/utils/envi_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resippy/utils/envi_utils.py b/resippy/utils/envi_utils.py
index 1569bc0..9ad9c28 100644
--- a/resippy/utils/envi_utils.py
+++ b/resippy/utils/envi_utils.py
@@ -126,7 +126,7 @@ def read_envi_header(header_fname,      # type: str
 
         if is_bracket_entry(header_text):
             right_brace_index = header_text.find('}')
-            entry_text = header_text[0:right_brace_index]
+            entry_text = header_text[0:right_brace_index + 1]
             key, val = str.split(entry_text, '=', 1)
             header_text = header_text[right_brace_index + 1:]
 
@@ -180,6 +180,8 @@ def write_envi_header(header_dict,      # type: dict
     with open(header_fname, "w") as f:
         f.write("ENVI" + "\n")
         for key, val in header_dict.items():
+            if isinstance(val, (list, tuple, np.ndarray)):
+                val = "{" + ", ".join(str(v) for v in val) + "}"
             f.write(key + " = " + str(val))
             f.write("\n")
 
-- 
2.43.0


From 3bf60f90430dfcfe44c9e11d1cad0bc96910f510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:21 +0000
Subject: [PATCH 44/91] fix: ENVI headers with an upper case interleave could
 not be read

---
 resippy/utils/envi_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/utils/envi_utils.py b/resippy/utils/envi_utils.py
index 9ad9c28..b08e585 100644
--- a/resippy/utils/envi_utils.py
+++ b/resippy/utils/envi_utils.py
@@ -237,7 +237,7 @@ def read_envi_image(image_file,             # type: str
     ny = int(envi_header['lines'])
     nbands = int(envi_header['bands'])
     envi_dtype = envi_header['data type']
-    interleave = envi_header['interleave']
+    interleave = envi_header['interleave'].lower()
     envi_image_data = read_all_image_data_to_numpy_array(image_file, envi_dtype,
                                                          byte_order=envi_header.get('byte order', 0),
                                                          header_offset=envi_header.get('header offset', 0))
-- 
2.43.0


From eb38192d34746786a0ccf66ae3280808f0bc2a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:17 +0000
Subject: [PATCH 45/91] fix: the spectral angle of integer images overflowed

---
 resippy/spectral/spectral_image_processing_1d.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resippy/spectral/spectral_image_processing_1d.py b/resippy/spectral/spectral_image_processing_1d.py
index 6569ec7..76be073 100644
--- a/resippy/spectral/spectral_image_processing_1d.py
+++ b/resippy/spectral/spectral_image_processing_1d.py
@@ -168,6 +168,8 @@ def sam(spectral_image,     # type: ndarray
     # Python 3.5+
     # numerator = target_spectra @ spectral_image.transpose()
     # Python 2.7 - 3.4
+    target_spectra = np.asarray(target_spectra, dtype=float)
+    spectral_image = np.asarray(spectral_image, dtype=float)
     numerator = np.dot(target_spectra, spectral_image.transpose())
 
     # Python 3.5+
-- 
2.43.0


From 8f84d392de8d53a30da78e64ec429fc606839f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:17 +0000
Subject: [PATCH 46/91] fix: the covariance equalization transform of 2d cubes
 raised without masks

---
 resippy/spectral/spectral_image_processing_2d.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/resippy/spectral/spectral_image_processing_2d.py b/resippy/spectral/spectral_image_processing_2d.py
index ef5c91d..71fa7b9 100644
--- a/resippy/spectral/spectral_image_processing_2d.py
+++ b/resippy/spectral/spectral_image_processing_2d.py
@@ -146,8 +146,12 @@ def compute_cov_eq_linear_transform_matrix(input_scene,                 # type:
                                            ):                           # type: (...) -> ndarray
     flattened_1 = spectral_tools.flatten_image_cube(input_scene)
     flattened_2 = spectral_tools.flatten_image_cube(scene_to_match)
-    flattened_mask_1 = image_utils.flatten_image_band(input_scene_mask)
-    flattened_mask_2 = image_utils.flatten_image_band(scene_to_match_mask)
+    flattened_mask_1 = None
+    flattened_mask_2 = None
+    if input_scene_mask is not None:
+        flattened_mask_1 = image_utils.flatten_image_band(input_scene_mask)
+    if scene_to_match_mask is not None:
+        flattened_mask_2 = image_utils.flatten_image_band(scene_to_match_mask)
     big_l = spectral_image_processing_1d.compute_cov_eq_linear_transform_matrix(flattened_1,
                                                                                 flattened_2,
                                                                                 flattened_mask_1,
-- 
2.43.0


From c1ce1fb8cf41acd4f338ba534aa20a9bb0d23ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:17 +0000
Subject: [PATCH 47/91] fix: computing principal components overwrote the image

---
 resippy/spectral/spectral_image_processing_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/spectral/spectral_image_processing_2d.py b/resippy/spectral/spectral_image_processing_2d.py
index 71fa7b9..96bdcd1 100644
--- a/resippy/spectral/spectral_image_processing_2d.py
+++ b/resippy/spectral/spectral_image_processing_2d.py
@@ -22,7 +22,7 @@ def compute_image_cube_pca(spectral_image,      # type: ndarray
     #                      copy=False)
     pca = PCA(n_components=n_components,
                          whiten=whiten,
-                         copy=False)
+                         copy=True)
 
     xformed = pca.fit_transform(prepped_cube)
     nsamp, ncomp = xformed.shape
-- 
2.43.0


From 1993185a443341bdbc932e485b818f358e537b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:17 +0000
Subject: [PATCH 48/91] fix: the covariance of a single band was not a matrix,
 so its anomaly detector raised

---
 resippy/spectral/spectral_image_processing_1d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/spectral/spectral_image_processing_1d.py b/resippy/spectral/spectral_image_processing_1d.py
index 76be073..48571cb 100644
--- a/resippy/spectral/spectral_image_processing_1d.py
+++ b/resippy/spectral/spectral_image_processing_1d.py
@@ -30,13 +30,13 @@ def compute_image_cube_spectral_covariance(spectral_image,  # type: ndarray
                                            image_mask=None  # type: ndarray
                                            ):      # type: (...) -> ndarray
     if image_mask is None:
-        return np.cov(np.transpose(spectral_image))
+        return np.atleast_2d(np.cov(np.transpose(spectral_image)))
     else:
         mask = np.zeros(spectral_image.shape)
         for i in range(spectral_image.shape[1]):
             mask[:, i] = image_mask
         spectral_image = np.ma.masked_array(spectral_image, mask)
-        masked_covar = np.ma.cov(np.transpose(spectral_image))
+        masked_covar = np.ma.atleast_2d(np.ma.cov(np.transpose(spectral_image)))
         return masked_covar
 
 
-- 
2.43.0


From d26542d189515569bdc1a88a7798eae6132063d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:31 +0000
Subject: [PATCH 49/91] fix: trailing blank lines in ENVI ascii plot files
 raised

---
 .../envi/ascii/envi_ascii_plot_file_factory.py                  | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resippy/spectral/spectrum_factories/envi/ascii/envi_ascii_plot_file_factory.py b/resippy/spectral/spectrum_factories/envi/ascii/envi_ascii_plot_file_factory.py
index a855ae6..954e986 100644
--- a/resippy/spectral/spectrum_factories/envi/ascii/envi_ascii_plot_file_factory.py
+++ b/resippy/spectral/spectrum_factories/envi/ascii/envi_ascii_plot_file_factory.py
@@ -21,6 +21,8 @@ class EnviAsciiPlotFileFactory:
         for text in wavelengths_and_reflectances:
             text = string_utils.remove_newlines(text)
             text = ' '.join(text.split())
+            if not text:
+                continue
             w, r = text.split()
             wavelengths.append(float(w))
             spectral_data.append(float(r))
-- 
2.43.0


From a5b83926ba793897f275c13f491100a46c01068b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:31 +0000
Subject: [PATCH 50/91] fix: trailing blank lines in SVC files raised

---
 .../spectrum_factories/SVC/ascii/svc_spectral_factory.py   | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/resippy/spectral/spectrum_factories/SVC/ascii/svc_spectral_factory.py b/resippy/spectral/spectrum_factories/SVC/ascii/svc_spectral_factory.py
index 0bcaba1..122467b 100644
--- a/resippy/spectral/spectrum_factories/SVC/ascii/svc_spectral_factory.py
+++ b/resippy/spectral/spectrum_factories/SVC/ascii/svc_spectral_factory.py
@@ -23,9 +23,12 @@ class SvcAsciiFileFactory:
         wavelengths = []
         spectral_data = []
         while data_ind < len(content):
-            wave, _, _, ref = content[data_ind].split()
-
+            line = content[data_ind]
             data_ind += 1
+            if not line.strip():
+                continue
+            wave, _, _, ref = line.split()
+
             wavelengths.append(float(wave))
             spectral_data.append(float(ref)/100.0)
 
-- 
2.43.0


From e95d625e09dae6f5d4c4db6d908b7bda69a5feb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:31 +0000
Subject: [PATCH 51/91] fix: blank lines in csv spectra raised

---
 .../spectrum_factories/csv/ascii/csv_spectral_factory.py        | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resippy/spectral/spectrum_factories/csv/ascii/csv_spectral_factory.py b/resippy/spectral/spectrum_factories/csv/ascii/csv_spectral_factory.py
index ed49c09..2ea72b9 100644
--- a/resippy/spectral/spectrum_factories/csv/ascii/csv_spectral_factory.py
+++ b/resippy/spectral/spectrum_factories/csv/ascii/csv_spectral_factory.py
@@ -27,6 +27,8 @@ class CsvAsciiFileFactory:
                 next(reader)
 
             for row in reader:
+                if not ''.join(row).strip():
+                    continue
                 wave = row[wave_index]
                 ref = row[reflectance_index]
                 wavelengths.append(float(wave))
-- 
2.43.0


From 97bd98ff5856e0d3abbb27136fa7c78f1fa19fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:31 +0000
Subject: [PATCH 52/91] fix: trailing blank lines in USGS ascii files raised

---
 .../usgs/ascii/usgs_ascii_spectral_factory.py               | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resippy/spectral/spectrum_factories/usgs/ascii/usgs_ascii_spectral_factory.py b/resippy/spectral/spectrum_factories/usgs/ascii/usgs_ascii_spectral_factory.py
index 2a92ea8..4a8b62c 100644
--- a/resippy/spectral/spectrum_factories/usgs/ascii/usgs_ascii_spectral_factory.py
+++ b/resippy/spectral/spectrum_factories/usgs/ascii/usgs_ascii_spectral_factory.py
@@ -25,7 +25,7 @@ class UsgsAsciiSpectralFactory:
         with open(filename) as f:
             content = f.readlines()
         content = [x.strip() for x in content][1:]
-        reflectance = np.array([float(x) for x in content])
+        reflectance = np.array([float(x) for x in content if x])
         spectrum = Spectrum()
         spectrum.set_wavelength_units(WAVELENGTH_UNITS)
         spectrum.set_wavelengths(wavelengths)
@@ -62,7 +62,7 @@ class UsgsAsciiSpectralFactory:
         with open(filename) as f:
             content = f.readlines()
         content = [x.strip() for x in content][1:]
-        wavelengths = np.array([float(x) for x in content])
+        wavelengths = np.array([float(x) for x in content if x])
         return wavelengths
 
     @staticmethod
@@ -71,5 +71,5 @@ class UsgsAsciiSpectralFactory:
         with open(filename) as f:
             content = f.readlines()
         content = [x.strip() for x in content][1:]
-        fwhm = np.array([float(x) for x in content])
+        fwhm = np.array([float(x) for x in content if x])
         return fwhm
-- 
2.43.0


From afa450e0072dc841af665b987410886c77636f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:31 +0000
Subject: [PATCH 53/91] fix: wavelengths of USGS spectra given by a relative
 path or in folders with brackets were not found

---
 .../usgs/ascii/usgs_ascii_spectral_factory.py               | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resippy/spectral/spectrum_factories/usgs/ascii/usgs_ascii_spectral_factory.py b/resippy/spectral/spectrum_factories/usgs/ascii/usgs_ascii_spectral_factory.py
index 4a8b62c..3c64169 100644
--- a/resippy/spectral/spectrum_factories/usgs/ascii/usgs_ascii_spectral_factory.py
+++ b/resippy/spectral/spectrum_factories/usgs/ascii/usgs_ascii_spectral_factory.py
@@ -17,7 +17,7 @@ class UsgsAsciiSpectralFactory:
     @classmethod
     def from_ascii_file(cls, filename   # type: str
                         ):              # type: (...) -> Spectrum
-        metadata_dir = os.path.dirname(os.path.dirname(filename))
+        metadata_dir = os.path.dirname(os.path.dirname(os.path.abspath(filename)))
         wavelengths_fname = cls.get_wavelengths_fname(metadata_dir)
         wavelengths = cls.read_ascii_wavelengths(wavelengths_fname)
         fwhm_fname = cls.get_fwhm_fname(metadata_dir)
@@ -39,7 +39,7 @@ class UsgsAsciiSpectralFactory:
     @staticmethod
     def get_fwhm_fname(base_dir     # type: str
                        ):           # type: (...) -> str
-        txt_files = glob.glob(base_dir + "/*.txt")
+        txt_files = glob.glob(glob.escape(base_dir) + "/*.txt")
         for txt_file in txt_files:
             basename_lower = str.lower(os.path.basename(txt_file))
             if "resolution" in basename_lower or \
@@ -49,7 +49,7 @@ class UsgsAsciiSpectralFactory:
     @staticmethod
     def get_wavelengths_fname(base_dir     # type: str
                               ):           # type: (...) -> str
-        txt_files = glob.glob(base_dir + "/*.txt")
+        txt_files = glob.glob(glob.escape(base_dir) + "/*.txt")
         for txt_file in txt_files:
             basename_lower = str.lower(os.path.basename(txt_file))
             if "wavelength" in basename_lower or \
-- 
2.43.0


From 7ef33f1503bc4b62d2624bf8d687c86b80165277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:31 +0000
Subject: [PATCH 54/91] fix: spectral values of integer spectra could not be
 got

---
 resippy/spectral/spectrum.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/resippy/spectral/spectrum.py b/resippy/spectral/spectrum.py
index 493a2a4..e287bd0 100644
--- a/resippy/spectral/spectrum.py
+++ b/resippy/spectral/spectrum.py
@@ -39,7 +39,11 @@ class Spectrum:
         spectral_data = copy.deepcopy(self._spectral_data)
         if nodata_to_nan:
             # spectral_data_nodata_replaced = copy.deepcopy(self._spectral_data)
-            spectral_data[np.where(spectral_data == self.get_nodata_val())] = np.nan
+            nodata_locs = np.where(spectral_data == self.get_nodata_val())
+            if nodata_locs[0].size > 0 and not np.issubdtype(spectral_data.dtype, np.inexact):
+                spectral_data = spectral_data.astype(float)
+            if nodata_locs[0].size > 0:
+                spectral_data[nodata_locs] = np.nan
         if with_units:
             spectral_data = spectral_data * self.get_spectrum_units()
         return spectral_data
-- 
2.43.0


From 12fffad04e4cf43fedbdd53bdff4c52744c44170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:20 +0000
Subject: [PATCH 55/91] fix: GPS times depended on the local time zone

---
 resippy/utils/time_utils.py | 44 ++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/resippy/utils/time_utils.py b/resippy/utils/time_utils.py
index 167a7cc..f8786e4 100644
--- a/resippy/utils/time_utils.py
+++ b/resippy/utils/time_utils.py
@@ -1,33 +1,33 @@
-from datetime import datetime, timedelta
+from datetime import datetime, timedelta, timezone
 from bisect import bisect_right
 import math
 
 # table of UTC leap second insertions since 1980 (http://hpiers.obspm.fr/eop-pc/index.php?index=TAI-UTC_tab&lang=en)
 _LEAPSECONDS = [
-    (datetime(1980, 1, 1).timestamp(), timedelta(seconds=19)),
-    (datetime(1981, 7, 1).timestamp(), timedelta(seconds=20)),
-    (datetime(1982, 7, 1).timestamp(), timedelta(seconds=21)),
-    (datetime(1983, 7, 1).timestamp(), timedelta(seconds=22)),
-    (datetime(1985, 7, 1).timestamp(), timedelta(seconds=23)),
-    (datetime(1988, 1, 1).timestamp(), timedelta(seconds=24)),
-    (datetime(1990, 1, 1).timestamp(), timedelta(seconds=25)),
-    (datetime(1991, 1, 1).timestamp(), timedelta(seconds=26)),
-    (datetime(1992, 7, 1).timestamp(), timedelta(seconds=27)),
-    (datetime(1993, 7, 1).timestamp(), timedelta(seconds=28)),
-    (datetime(1994, 7, 1).timestamp(), timedelta(seconds=29)),
-    (datetime(1996, 1, 1).timestamp(), timedelta(seconds=30)),
-    (datetime(1997, 7, 1).timestamp(), timedelta(seconds=31)),
-    (datetime(1999, 1, 1).timestamp(), timedelta(seconds=32)),
-    (datetime(2006, 1, 1).timestamp(), timedelta(seconds=33)),
-    (datetime(2009, 1, 1).timestamp(), timedelta(seconds=34)),
-    (datetime(2012, 7, 1).timestamp(), timedelta(seconds=35)),
-    (datetime(2015, 7, 1).timestamp(), timedelta(seconds=36)),
-    (datetime(2017, 1, 1).timestamp(), timedelta(seconds=37))
+    (datetime(1980, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=19)),
+    (datetime(1981, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=20)),
+    (datetime(1982, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=21)),
+    (datetime(1983, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=22)),
+    (datetime(1985, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=23)),
+    (datetime(1988, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=24)),
+    (datetime(1990, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=25)),
+    (datetime(1991, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=26)),
+    (datetime(1992, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=27)),
+    (datetime(1993, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=28)),
+    (datetime(1994, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=29)),
+    (datetime(1996, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=30)),
+    (datetime(1997, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=31)),
+    (datetime(1999, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=32)),
+    (datetime(2006, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=33)),
+    (datetime(2009, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=34)),
+    (datetime(2012, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=35)),
+    (datetime(2015, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=36)),
+    (datetime(2017, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=37))
 ]
 
 # reference epoch for GPS and UTC time
-_GPS_EPOCH = datetime(1980, 1, 6)
-_UNIX_EPOCH = datetime(1970, 1, 1)
+_GPS_EPOCH = datetime(1980, 1, 6, tzinfo=timezone.utc)
+_UNIX_EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)
 
 # other constants
 _SECONDS_IN_MINUTE = 60
-- 
2.43.0


From a79371d89b0dfa22a051e7bbcfddb1a94a5329aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:20 +0000
Subject: [PATCH 56/91] fix: GPS times shortly before a leap second were
 converted with the offset after it

---
 resippy/utils/time_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resippy/utils/time_utils.py b/resippy/utils/time_utils.py
index f8786e4..b865653 100644
--- a/resippy/utils/time_utils.py
+++ b/resippy/utils/time_utils.py
@@ -60,7 +60,9 @@ def utc_timestamp_to_gps_timestamp(utc_timestamp    # type: float
 def gps_timestamp_to_utc_timestamp(gps_timestamp    # type: float
                                    ):               # type: (...) -> float
     utc_timestamp_with_leap = gps_timestamp + (_GPS_EPOCH.timestamp() - _UNIX_EPOCH.timestamp())
-    return utc_timestamp_with_leap - _get_gps_leapsecond_offset(utc_timestamp_with_leap).total_seconds()
+    utc_timestamp = utc_timestamp_with_leap - _get_gps_leapsecond_offset(utc_timestamp_with_leap).total_seconds()
+    # leap seconds are tabulated in utc, which may still be before a leap second the gps timestamp seems to be after
+    return utc_timestamp_with_leap - _get_gps_leapsecond_offset(utc_timestamp).total_seconds()
 
 
 def utc_timestamp_to_gps_week_and_seconds(utc_timestamp     # type: float
-- 
2.43.0


From 059c3862d653bf4d958f5a6839a2062abadb9231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:15 +0000
Subject: [PATCH 57/91] fix: lines of Applanix EO files with only some numeric
 columns shifted the columns against each other

---
 resippy/photogrammetry/nav/applanix_eo_nav.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/resippy/photogrammetry/nav/applanix_eo_nav.py b/resippy/photogrammetry/nav/applanix_eo_nav.py
index 0d0c715..9c1b55b 100644
--- a/resippy/photogrammetry/nav/applanix_eo_nav.py
+++ b/resippy/photogrammetry/nav/applanix_eo_nav.py
@@ -27,17 +27,14 @@ class ApplanixEONav(AbstractNav):
                 line_parts = line.split()
 
                 try:
-                    gps_time.append(float(line_parts[1]))
-                    easting.append(float(line_parts[2]))
-                    northing.append(float(line_parts[3]))
-                    height.append(float(line_parts[4]))
-                    omega.append(float(line_parts[5]))
-                    phi.append(float(line_parts[6]))
-                    kappa.append(float(line_parts[7]))
-                    lat.append(float(line_parts[8]))
-                    lon.append(float(line_parts[9]))
-                except (IndexError, ValueError):
-                    pass
+                    values = [float(part) for part in line_parts[1:10]]
+                except ValueError:
+                    continue
+                if len(values) < 9:
+                    continue
+
+                for column, value in zip((gps_time, easting, northing, height, omega, phi, kappa, lat, lon), values):
+                    column.append(value)
 
         self._nav_data = {
             'gps_time': np.array(gps_time),
-- 
2.43.0


From 0824df4bd4dbeb342480a1ab5fe3d4f25739408f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:26 +0000
Subject: [PATCH 58/91] fix: attitude angles that wrap around between two nav
 records were interpolated the long way round

---
 resippy/photogrammetry/nav/applanix_eo_nav.py | 20 +++++++++++++++----
 .../photogrammetry/nav/applanix_sbet_nav.py   | 20 +++++++++++++++----
 2 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/resippy/photogrammetry/nav/applanix_eo_nav.py b/resippy/photogrammetry/nav/applanix_eo_nav.py
index 9c1b55b..b477da6 100644
--- a/resippy/photogrammetry/nav/applanix_eo_nav.py
+++ b/resippy/photogrammetry/nav/applanix_eo_nav.py
@@ -71,6 +71,17 @@ class ApplanixEONav(AbstractNav):
                        ):   # type: (...) -> np.ndarray
         return (ys[0, :]*(xs[1, :] - x) + ys[1, :]*(x - xs[0, :])) / (xs[1, :] - xs[0, :])
 
+    @classmethod
+    def _interp_degrees(cls,
+                        x,   # type: np.ndarray
+                        xs,  # type: np.ndarray
+                        ys   # type: np.ndarray
+                        ):   # type: (...) -> np.ndarray
+        # go the shorter way round, e.g. from 359 to 1 degrees through north
+        turns = np.round((ys[1, :] - ys[0, :]) / 360.0)
+
+        return cls._linear_interp(x, xs, np.array([ys[0, :], ys[1, :] - 360.0 * turns]))
+
     def _get_indexes(self,
                      gps_times  # type: np.ndarray
                      ):         # type: (...) -> (np.ndarray, np.ndarray)
@@ -93,7 +104,8 @@ class ApplanixEONav(AbstractNav):
             xs = self._get_xs(left_indexes, right_indexes)
 
             records = np.array([{key: value[i] for key, value in {
-                key: self._linear_interp(gps_times, xs, np.array([value[left_indexes], value[right_indexes]])) for
+                key: (self._interp_degrees if key in ('omega', 'phi', 'kappa') else self._linear_interp)(
+                    gps_times, xs, np.array([value[left_indexes], value[right_indexes]])) for
                 key, value in self._nav_data.items()}.items()} for i in range(gps_times.size)])
 
             return records
@@ -158,7 +170,7 @@ class ApplanixEONav(AbstractNav):
 
             omegas_left = self._nav_data['omega'][left_indexes]
             omegas_right = self._nav_data['omega'][right_indexes]
-            omegas = self._linear_interp(gps_times, xs, np.array([omegas_left, omegas_right]))
+            omegas = self._interp_degrees(gps_times, xs, np.array([omegas_left, omegas_right]))
 
             return omegas
 
@@ -174,7 +186,7 @@ class ApplanixEONav(AbstractNav):
 
             phis_left = self._nav_data['phi'][left_indexes]
             phis_right = self._nav_data['phi'][right_indexes]
-            phis = self._linear_interp(gps_times, xs, np.array([phis_left, phis_right]))
+            phis = self._interp_degrees(gps_times, xs, np.array([phis_left, phis_right]))
 
             return phis
 
@@ -190,7 +202,7 @@ class ApplanixEONav(AbstractNav):
 
             kappas_left = self._nav_data['kappa'][left_indexes]
             kappas_right = self._nav_data['kappa'][right_indexes]
-            kappas = self._linear_interp(gps_times, xs, np.array([kappas_left, kappas_right]))
+            kappas = self._interp_degrees(gps_times, xs, np.array([kappas_left, kappas_right]))
 
             return kappas
 
diff --git a/resippy/photogrammetry/nav/applanix_sbet_nav.py b/resippy/photogrammetry/nav/applanix_sbet_nav.py
index 6af2ff2..cd27d37 100644
--- a/resippy/photogrammetry/nav/applanix_sbet_nav.py
+++ b/resippy/photogrammetry/nav/applanix_sbet_nav.py
@@ -57,6 +57,17 @@ class ApplanixSBETNav(AbstractNav):
                        ):   # type: (...) -> np.ndarray
         return (ys[0, :]*(xs[1, :] - x) + ys[1, :]*(x - xs[0, :])) / (xs[1, :] - xs[0, :])
 
+    @classmethod
+    def _interp_degrees(cls,
+                        x,   # type: np.ndarray
+                        xs,  # type: np.ndarray
+                        ys   # type: np.ndarray
+                        ):   # type: (...) -> np.ndarray
+        # go the shorter way round, e.g. from 359 to 1 degrees through north
+        turns = np.round((ys[1, :] - ys[0, :]) / 360.0)
+
+        return cls._linear_interp(x, xs, np.array([ys[0, :], ys[1, :] - 360.0 * turns]))
+
     def _get_indexes(self,
                      gps_times  # type: np.ndarray
                      ):         # type: (...) -> (np.ndarray, np.ndarray)
@@ -79,7 +90,8 @@ class ApplanixSBETNav(AbstractNav):
             xs = self._get_xs(left_indexes, right_indexes)
 
             records = np.array([{key: value[i] for key, value in {
-                key: self._linear_interp(gps_times, xs, np.array([value[left_indexes], value[right_indexes]])) for
+                key: (self._interp_degrees if key in ('roll', 'pitch', 'azimuth') else self._linear_interp)(
+                    gps_times, xs, np.array([value[left_indexes], value[right_indexes]])) for
                 key, value in self._nav_data.items()}.items()} for i in range(gps_times.size)])
 
             return records
@@ -144,7 +156,7 @@ class ApplanixSBETNav(AbstractNav):
 
             rolls_left = self._nav_data['roll'][left_indexes]
             rolls_right = self._nav_data['roll'][right_indexes]
-            rolls = self._linear_interp(gps_times, xs, np.array([rolls_left, rolls_right]))
+            rolls = self._interp_degrees(gps_times, xs, np.array([rolls_left, rolls_right]))
 
             return rolls
 
@@ -160,7 +172,7 @@ class ApplanixSBETNav(AbstractNav):
 
             pitches_left = self._nav_data['pitch'][left_indexes]
             pitches_right = self._nav_data['pitch'][right_indexes]
-            pitches = self._linear_interp(gps_times, xs, np.array([pitches_left, pitches_right]))
+            pitches = self._interp_degrees(gps_times, xs, np.array([pitches_left, pitches_right]))
 
             return pitches
 
@@ -176,7 +188,7 @@ class ApplanixSBETNav(AbstractNav):
 
             azimuths_left = self._nav_data['azimuth'][left_indexes]
             azimuths_right = self._nav_data['azimuth'][right_indexes]
-            azimuths = self._linear_interp(gps_times, xs, np.array([azimuths_left, azimuths_right]))
+            azimuths = self._interp_degrees(gps_times, xs, np.array([azimuths_left, azimuths_right]))
 
             return azimuths
 
-- 
2.43.0


From 049085b39386c9e44830c4cb14cf1daa3c7193fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:26 +0000
Subject: [PATCH 59/91] fix: colour maps of more than 127 colours overflowed

---
 resippy/utils/image_utils/image_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/image_utils/image_utils.py b/resippy/utils/image_utils/image_utils.py
index 6accb45..09eef01 100644
--- a/resippy/utils/image_utils/image_utils.py
+++ b/resippy/utils/image_utils/image_utils.py
@@ -205,8 +205,8 @@ def apply_colormap_to_grayscale_image(grayscale_image,  # type: ndarray
         max_clip = min_clip + (max_clip - min_clip) * (n_bins - 1) / n_bins
 
     palette_indices = np.linspace(min_clip, max_clip, n_bins)
-    image_low_index_map = np.zeros(grayscale_image.shape, dtype=np.int8)
-    image_high_index_map = np.zeros(grayscale_image.shape, dtype=np.int8)
+    image_low_index_map = np.zeros(grayscale_image.shape, dtype=int)
+    image_high_index_map = np.zeros(grayscale_image.shape, dtype=int)
     image_low_palette_index = np.zeros(grayscale_image.shape)
     image_high_palette_index = np.zeros(grayscale_image.shape)
 
-- 
2.43.0


From 9ac7684aaae3d723d59a7766a55dd4f51301ca00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:26 +0000
Subject: [PATCH 60/91] fix: stretching integer images of a wide range
 overflowed and constant images became NaN

---
 resippy/utils/image_utils/image_utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/resippy/utils/image_utils/image_utils.py b/resippy/utils/image_utils/image_utils.py
index 09eef01..582372c 100644
--- a/resippy/utils/image_utils/image_utils.py
+++ b/resippy/utils/image_utils/image_utils.py
@@ -123,9 +123,14 @@ def gdal_grid_image_band(image_to_warp,  # type: ndarray
 
 
 def normalize_grayscale_image(input_image, new_min, new_max, output_dtype=None):
+    if not np.issubdtype(input_image.dtype, np.inexact):
+        input_image = input_image.astype(float)
     image_min = np.min(input_image)
     image_max = np.max(input_image)
-    image_zero_to_one = (input_image - image_min)/(image_max-image_min)
+    if image_max == image_min:
+        image_zero_to_one = np.zeros_like(input_image)
+    else:
+        image_zero_to_one = (input_image - image_min)/(image_max-image_min)
     normalized_image = image_zero_to_one * (new_max - new_min) + new_min
     if output_dtype is None:
         return normalized_image
-- 
2.43.0


From 0a20d07f7852afb0ef28070e750f561e3310794e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:26 +0000
Subject: [PATCH 61/91] fix: pixel grids with a scale factor could reach past
 the image

---
 resippy/utils/image_utils/image_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/image_utils/image_utils.py b/resippy/utils/image_utils/image_utils.py
index 582372c..b2e681d 100644
--- a/resippy/utils/image_utils/image_utils.py
+++ b/resippy/utils/image_utils/image_utils.py
@@ -72,8 +72,8 @@ def create_pixel_grid(nx_pixels,  # type: int
                       ny_pixels,  # type: int
                       scale_factor=1  # type: float
                       ):  # type: (...) -> (ndarray, ndarray)
-    x = np.arange(0, nx_pixels, (1.0 / scale_factor))
-    y = np.arange(0, ny_pixels, (1.0 / scale_factor))
+    x = np.arange(np.ceil(nx_pixels * scale_factor - 1e-9)) / scale_factor
+    y = np.arange(np.ceil(ny_pixels * scale_factor - 1e-9)) / scale_factor
     xx, yy = np.meshgrid(x, y, sparse=False)
     return xx, yy
 
-- 
2.43.0


From 5ee191197caea6f5ed357b0ffb0d6a21b6e3ea2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:40 +0000
Subject: [PATCH 62/91] fix: stepped colour maps of integer images of a wide
 range overflowed

---
 resippy/utils/image_utils/image_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/utils/image_utils/image_utils.py b/resippy/utils/image_utils/image_utils.py
index b2e681d..5888ee0 100644
--- a/resippy/utils/image_utils/image_utils.py
+++ b/resippy/utils/image_utils/image_utils.py
@@ -207,7 +207,7 @@ def apply_colormap_to_grayscale_image(grayscale_image,  # type: ndarray
         n_bins = np.shape(color_palette)[0]
 
     if continuous is not True:
-        max_clip = min_clip + (max_clip - min_clip) * (n_bins - 1) / n_bins
+        max_clip = min_clip + (float(max_clip) - min_clip) * (n_bins - 1) / n_bins
 
     palette_indices = np.linspace(min_clip, max_clip, n_bins)
     image_low_index_map = np.zeros(grayscale_image.shape, dtype=int)
-- 
2.43.0


From c6afdfab5f10412f9b4601be756234a7085ae99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:06 +0000
Subject: [PATCH 63/91] fix: continuous colour maps of constant images were
 black

---
 resippy/utils/image_utils/image_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/image_utils/image_utils.py b/resippy/utils/image_utils/image_utils.py
index 5888ee0..7e9f75c 100644
--- a/resippy/utils/image_utils/image_utils.py
+++ b/resippy/utils/image_utils/image_utils.py
@@ -228,8 +228,9 @@ def apply_colormap_to_grayscale_image(grayscale_image,  # type: ndarray
         image_high_index_map[bin_indices] = i + 1
         image_low_palette_index[bin_indices] = palette_indices[i]
         image_high_palette_index[bin_indices] = palette_indices[i + 1]
-    palette_index_weights_high = (grayscale_image - image_low_palette_index) / \
-                                 (image_high_palette_index - image_low_palette_index)
+    palette_index_widths = image_high_palette_index - image_low_palette_index
+    palette_index_widths[palette_index_widths == 0] = 1
+    palette_index_weights_high = (grayscale_image - image_low_palette_index) / palette_index_widths
     palette_index_weights_low = 1.0 - palette_index_weights_high
 
     for i in range(n_bins - 1):
-- 
2.43.0


From e50cd3870b64b03d54489829eb74a3f4081163bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:08 +0000
Subject: [PATCH 64/91] fix: mutual information of float images was infinite or
 wrong when values on bin edges were counted in different bins by the
 histograms

---
 resippy/utils/image_utils/image_registration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/image_utils/image_registration.py b/resippy/utils/image_utils/image_registration.py
index e4b2d1a..26f5afe 100644
--- a/resippy/utils/image_utils/image_registration.py
+++ b/resippy/utils/image_utils/image_registration.py
@@ -15,9 +15,9 @@ class MMI:
 
         image1_flat = greyscale_image_1.ravel()
         image2_flat = greyscale_image_2.ravel()
-        hist1 = np.histogram(image1_flat, bins=nbins)[0]
-        hist2 = np.histogram(image2_flat, bins=nbins)[0]
         joint_histogram = np.histogram2d(image1_flat, image2_flat, bins=nbins)[0]
+        hist1 = np.sum(joint_histogram, axis=1)
+        hist2 = np.sum(joint_histogram, axis=0)
         mmi = cls._histogram_mmi(hist1, hist2, joint_histogram)
         return mmi
 
-- 
2.43.0


From 38f1d4ebf5506a4e76d48fc00c24e7b5e42d0960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:02 +0000
Subject: [PATCH 65/91] fix: an empty list of text could not be written to a
 file

---
 resippy/utils/file_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resippy/utils/file_utils.py b/resippy/utils/file_utils.py
index 591d780..9db7392 100644
--- a/resippy/utils/file_utils.py
+++ b/resippy/utils/file_utils.py
@@ -78,7 +78,8 @@ def write_text_list_to_file(text_list,  # type: list
                             output_fname,  # type: str
                             ):              # type: (...) -> None
     text_list_with_newlines = [entry + '\n' for entry in text_list]
-    text_list_with_newlines[-1] = text_list[-1]
+    if len(text_list) > 0:
+        text_list_with_newlines[-1] = text_list[-1]
     with open(output_fname, 'w') as f:
         f.writelines(text_list_with_newlines)
 
-- 
2.43.0


From a048e954155e85388091a3cb5df455ce2a74dc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:02 +0000
Subject: [PATCH 66/91] fix: listing files missed names without a dot, listed
 folders, and failed for extensions of two parts and folders with brackets

---
 resippy/utils/file_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/resippy/utils/file_utils.py b/resippy/utils/file_utils.py
index 9db7392..1a5b833 100644
--- a/resippy/utils/file_utils.py
+++ b/resippy/utils/file_utils.py
@@ -23,9 +23,9 @@ def get_all_files_in_dir(directory,                     # type: str
     sanitized_extensions = []
     if type(extensions) == (type([])):
         for extension in extensions:
-            sanitized_extensions.append(extension.replace(".", "").replace("*", ""))
+            sanitized_extensions.append("*." + extension.lstrip("*."))
     elif type(extensions) == (type("")):
-        sanitized_extensions.append(extensions.replace(".", "").replace("*", ""))
+        sanitized_extensions.append("*." + extensions.lstrip("*."))
     elif extensions is None:
         sanitized_extensions.append("*")
     else:
@@ -33,8 +33,8 @@ def get_all_files_in_dir(directory,                     # type: str
 
     files = []
     for extension in sanitized_extensions:
-        fnames = glob.glob(directory + os.path.sep + "*." + extension)
-        files = files + fnames
+        fnames = glob.glob(glob.escape(directory) + os.path.sep + extension)
+        files = files + [fname for fname in fnames if os.path.isfile(fname)]
     if return_fullpaths:
         return files
     else:
-- 
2.43.0


From f4135d0094c04d82bd05cafd5546691f1f21d197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:02 +0000
Subject: [PATCH 67/91] fix: files were listed once for every prefix or
 extension they match

---
 resippy/utils/file_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/file_utils.py b/resippy/utils/file_utils.py
index 1a5b833..760bcc6 100644
--- a/resippy/utils/file_utils.py
+++ b/resippy/utils/file_utils.py
@@ -34,7 +34,7 @@ def get_all_files_in_dir(directory,                     # type: str
     files = []
     for extension in sanitized_extensions:
         fnames = glob.glob(glob.escape(directory) + os.path.sep + extension)
-        files = files + [fname for fname in fnames if os.path.isfile(fname)]
+        files = files + [fname for fname in fnames if os.path.isfile(fname) and fname not in files]
     if return_fullpaths:
         return files
     else:
@@ -56,7 +56,7 @@ def get_files_in_dir_that_start_with(directory,                 # type: str
     filtered_basenames = []
     for starts_with_text in starts_with:
         for basename in all_basenames:
-            if basename.startswith(starts_with_text):
+            if basename.startswith(starts_with_text) and basename not in filtered_basenames:
                 filtered_basenames.append(basename)
     if not return_fullpaths:
         return filtered_basenames
-- 
2.43.0


From fc428f0630a1964346ae702ce3703be28bd43dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:02 +0000
Subject: [PATCH 68/91] fix: csv tables with blank lines or without rows raised

---
 resippy/utils/csv_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/csv_utils.py b/resippy/utils/csv_utils.py
index ff125e2..c885657 100644
--- a/resippy/utils/csv_utils.py
+++ b/resippy/utils/csv_utils.py
@@ -13,8 +13,8 @@ class CsvUtils:
         with open(fname) as f:
             reader = csv.reader(f, delimiter=delimiter)
             header = next(reader) # skip header
-            data = [row for row in reader]
-            data = np.asarray(data)
+            data = [row for row in reader if row]
+            data = np.asarray(data).reshape(len(data), len(header))
         csv_dict = {}
         for i, header_name in enumerate(header):
             csv_dict[header_name] = data[:, i]
-- 
2.43.0


From 53fca083d91fcf995c5836d8487af270301ea31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:27 +0000
Subject: [PATCH 69/91] fix: sub seconds of MicaSense exposures lost leading
 zeros

---
 .../image_objects/earth_overhead/micasense/micasense_image.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/image_objects/earth_overhead/micasense/micasense_image.py b/resippy/image_objects/earth_overhead/micasense/micasense_image.py
index b3ae344..6299f36 100644
--- a/resippy/image_objects/earth_overhead/micasense/micasense_image.py
+++ b/resippy/image_objects/earth_overhead/micasense/micasense_image.py
@@ -44,7 +44,7 @@ class MicasenseImage(AbstractEarthOverheadImage):
         __, seconds_in_week = time_utils.utc_timestamp_to_gps_week_and_seconds(utc_timestamp)
 
         timestamp_decimal_str = str(exif_data['EXIF SubSecTime'])
-        timestamp_decimal = float('0.{}'.format(int(timestamp_decimal_str)))
+        timestamp_decimal = float('0.{}'.format(timestamp_decimal_str.strip()))
 
         output_dict = {'gps_timestamp': seconds_in_week + timestamp_decimal}
 
-- 
2.43.0


From d559c8a94219f27d0e73384ff67b132e6d8e2014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:27 +0000
Subject: [PATCH 70/91] fix: fractional degrees and minutes of MicaSense
 positions ignored their denominators

---
 .../earth_overhead/micasense/micasense_image.py             | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/micasense/micasense_image.py b/resippy/image_objects/earth_overhead/micasense/micasense_image.py
index 6299f36..6db8dfb 100644
--- a/resippy/image_objects/earth_overhead/micasense/micasense_image.py
+++ b/resippy/image_objects/earth_overhead/micasense/micasense_image.py
@@ -67,10 +67,10 @@ class MicasenseImage(AbstractEarthOverheadImage):
         dms = dms_tag.values
         ref = ref_tag.values
 
-        d = dms[0].num
-        m = dms[1].num
+        d = dms[0].num / dms[0].den
+        m = dms[1].num / dms[1].den
         s = dms[2].num / dms[2].den
 
         sign = -1 if ref == 'S' or ref == 'W' else 1
 
-        return sign * (int(d) + float(m) / 60 + float(s) / 3600)
+        return sign * (d + m / 60 + s / 3600)
-- 
2.43.0


From c94fc76aa879c48a8f9a7d0be3af099211d42900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:26 +0000
Subject: [PATCH 71/91] fix: one row MicaSense images built from arrays were
 written as one column

---
 .../earth_overhead/micasense/micasense_image_factory.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/image_objects/earth_overhead/micasense/micasense_image_factory.py b/resippy/image_objects/earth_overhead/micasense/micasense_image_factory.py
index 653c2bc..e3ec26e 100644
--- a/resippy/image_objects/earth_overhead/micasense/micasense_image_factory.py
+++ b/resippy/image_objects/earth_overhead/micasense/micasense_image_factory.py
@@ -126,7 +126,7 @@ class MicasenseImageFactory:
                 band_basename = band_basenames[band]
             else:
                 band_basename = None
-            fn = write_tmp_band(np.squeeze(image_data[:,:,band]), working_dir, band_basename)
+            fn = write_tmp_band(image_data[:, :, band], working_dir, band_basename)
             micasense_image.band_fnames.append(fn)
 
         micasense_image.set_metadata(metadata)
-- 
2.43.0


From 600d9d7d0d09a74142a65afcebdbb247e04f51c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:31 +0000
Subject: [PATCH 72/91] fix: converting the vertical reference of a DEM raised
 NameError

---
 resippy/image_objects/earth_overhead/geotiff/geotiff_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
index 0c2005a..5801b84 100644
--- a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
+++ b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
@@ -183,7 +183,7 @@ class GeotiffImage(AbstractEarthOverheadImage):
         dst_epsg = 'EPSG:' + str(srs.GetAuthorityCode(None)) + "+" + str(datum_epsg_code)
 
         ops = gdal.WarpOptions(dstSRS=dst_epsg)
-        return gdalwarp_geoTiffImage(geotiff_image, dst_fname, ops)
+        return GeotiffImage.gdalwarp_geotiff_image(geotiff_image, ops, dst_fname)
 
     def create_map_tiles(self, out_dir, gdalwarp_ops=None):
         # keep this import statement in here until all OS / pip related issues with installing gdal2tiles are resolved.
-- 
2.43.0


From f805f7ec5d1858931fcc6c3d360b2693f85acc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:31 +0000
Subject: [PATCH 73/91] fix: a warp that failed returned what an earlier file
 of that name holds

---
 resippy/image_objects/earth_overhead/geotiff/geotiff_image.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
index 5801b84..cf74d46 100644
--- a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
+++ b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
@@ -165,6 +165,8 @@ class GeotiffImage(AbstractEarthOverheadImage):
             dst_fname = "/vsimem/tmp_gdalwarp_geotiff_" + uuid.uuid4().hex + ".tif"
 
         dst_dataset = gdal.Warp(dst_fname, src_dataset, options=warp_ops)
+        if dst_dataset is None:
+            raise RuntimeError('could not warp the image to ' + dst_fname + ': ' + gdal.GetLastErrorMsg())
         src_dataset = None
         dst_dataset = None
 
-- 
2.43.0


From e5c762a2b05e622bc3d7aa75d52df83803acbe5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:27 +0000
Subject: [PATCH 74/91] fix: the vertical reference was never converted, as no
 EPSG code is found for a PROJ string

---
 .../earth_overhead/geotiff/geotiff_image.py       | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
index cf74d46..4571b62 100644
--- a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
+++ b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
@@ -178,13 +178,14 @@ class GeotiffImage(AbstractEarthOverheadImage):
                                  dst_fname,         # type: str
                                  datum_epsg_code    # type: str
                                  ):                 # type: (...) -> GeotiffImage
-        proj4_srs = geotiff_image.get_point_calculator().get_projection().srs
-        srs = osr.SpatialReference()
-        srs.ImportFromProj4(proj4_srs)
-        srs.AutoIdentifyEPSG()
-        dst_epsg = 'EPSG:' + str(srs.GetAuthorityCode(None)) + "+" + str(datum_epsg_code)
-
-        ops = gdal.WarpOptions(dstSRS=dst_epsg)
+        horizontal_srs = osr.SpatialReference()
+        horizontal_srs.ImportFromWkt(geotiff_image.get_point_calculator().get_gdal_projection_wkt())
+        vertical_srs = osr.SpatialReference()
+        vertical_srs.ImportFromEPSG(int(datum_epsg_code))
+        dst_srs = osr.SpatialReference()
+        dst_srs.SetCompoundCS(horizontal_srs.GetName() + ' + ' + vertical_srs.GetName(), horizontal_srs, vertical_srs)
+
+        ops = gdal.WarpOptions(dstSRS=dst_srs.ExportToWkt())
         return GeotiffImage.gdalwarp_geotiff_image(geotiff_image, ops, dst_fname)
 
     def create_map_tiles(self, out_dir, gdalwarp_ops=None):
-- 
2.43.0


From 420d52e322590ddf9ea27954ddff9a03186a3142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:27 +0000
Subject: [PATCH 75/91] fix: geoid grids in folders with blanks were not found

---
 resippy/photogrammetry/dem/geotiff_dem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/photogrammetry/dem/geotiff_dem.py b/resippy/photogrammetry/dem/geotiff_dem.py
index d85e028..3e46630 100644
--- a/resippy/photogrammetry/dem/geotiff_dem.py
+++ b/resippy/photogrammetry/dem/geotiff_dem.py
@@ -38,7 +38,7 @@ class GeotiffDem(AbstractDem):
                                  geoidgrid_fname    # type: str
                                  ):  # type: (...) -> None
         src_srs = self.gtiff.get_point_calculator().get_projection().srs
-        dst_srs = src_srs + ' +geoidgrids=' + geoidgrid_fname
+        dst_srs = src_srs + ' +geoidgrids="' + geoidgrid_fname + '"'
         ops = gdal.WarpOptions(srcSRS=src_srs, dstSRS=dst_srs)
 
         new_gtiff = GeotiffImage.gdalwarp_geotiff_image(self.gtiff, ops, dst_fname)
@@ -51,7 +51,7 @@ class GeotiffDem(AbstractDem):
                                      geoidgrid_fname    # type: str
                                      ):                 # type: (...) -> None
         dst_srs = self.gtiff.get_point_calculator().get_projection().srs
-        src_srs = dst_srs + ' +geoidgrids=' + geoidgrid_fname
+        src_srs = dst_srs + ' +geoidgrids="' + geoidgrid_fname + '"'
         ops = gdal.WarpOptions(srcSRS=src_srs, dstSRS=dst_srs)
 
         new_gtiff = GeotiffImage.gdalwarp_geotiff_image(self.gtiff, ops, dst_fname)
-- 
2.43.0


From dc476ac1e81f858edc3ff3c3f38acafa89b50684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:27 +0000
Subject: [PATCH 76/91] fix: no-data posts unknown to the file became
 elevations when heights were converted

---
 resippy/photogrammetry/dem/geotiff_dem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/photogrammetry/dem/geotiff_dem.py b/resippy/photogrammetry/dem/geotiff_dem.py
index 3e46630..b441981 100644
--- a/resippy/photogrammetry/dem/geotiff_dem.py
+++ b/resippy/photogrammetry/dem/geotiff_dem.py
@@ -39,7 +39,7 @@ class GeotiffDem(AbstractDem):
                                  ):  # type: (...) -> None
         src_srs = self.gtiff.get_point_calculator().get_projection().srs
         dst_srs = src_srs + ' +geoidgrids="' + geoidgrid_fname + '"'
-        ops = gdal.WarpOptions(srcSRS=src_srs, dstSRS=dst_srs)
+        ops = gdal.WarpOptions(srcSRS=src_srs, dstSRS=dst_srs, srcNodata=self.nodata_value, dstNodata=self.nodata_value)
 
         new_gtiff = GeotiffImage.gdalwarp_geotiff_image(self.gtiff, ops, dst_fname)
 
@@ -52,7 +52,7 @@ class GeotiffDem(AbstractDem):
                                      ):                 # type: (...) -> None
         dst_srs = self.gtiff.get_point_calculator().get_projection().srs
         src_srs = dst_srs + ' +geoidgrids="' + geoidgrid_fname + '"'
-        ops = gdal.WarpOptions(srcSRS=src_srs, dstSRS=dst_srs)
+        ops = gdal.WarpOptions(srcSRS=src_srs, dstSRS=dst_srs, srcNodata=self.nodata_value, dstNodata=self.nodata_value)
 
         new_gtiff = GeotiffImage.gdalwarp_geotiff_image(self.gtiff, ops, dst_fname)
 
-- 
2.43.0


From 587170d1c0c0ca6c2551c6022cf989d48308d689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:23 +0000
Subject: [PATCH 77/91] fix: no-data posts unknown to the file became
 elevations when the vertical reference was converted

---
 .../image_objects/earth_overhead/geotiff/geotiff_image.py    | 5 +++--
 resippy/photogrammetry/dem/geotiff_dem.py                    | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
index 4571b62..c996d6f 100644
--- a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
+++ b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
@@ -176,7 +176,8 @@ class GeotiffImage(AbstractEarthOverheadImage):
     @ staticmethod
     def reproject_vertical_datum(geotiff_image,     # type: GeotiffImage
                                  dst_fname,         # type: str
-                                 datum_epsg_code    # type: str
+                                 datum_epsg_code,   # type: str
+                                 nodata_val=None    # type: float
                                  ):                 # type: (...) -> GeotiffImage
         horizontal_srs = osr.SpatialReference()
         horizontal_srs.ImportFromWkt(geotiff_image.get_point_calculator().get_gdal_projection_wkt())
@@ -185,7 +186,7 @@ class GeotiffImage(AbstractEarthOverheadImage):
         dst_srs = osr.SpatialReference()
         dst_srs.SetCompoundCS(horizontal_srs.GetName() + ' + ' + vertical_srs.GetName(), horizontal_srs, vertical_srs)
 
-        ops = gdal.WarpOptions(dstSRS=dst_srs.ExportToWkt())
+        ops = gdal.WarpOptions(dstSRS=dst_srs.ExportToWkt(), srcNodata=nodata_val, dstNodata=nodata_val)
         return GeotiffImage.gdalwarp_geotiff_image(geotiff_image, ops, dst_fname)
 
     def create_map_tiles(self, out_dir, gdalwarp_ops=None):
diff --git a/resippy/photogrammetry/dem/geotiff_dem.py b/resippy/photogrammetry/dem/geotiff_dem.py
index b441981..bb5a5ad 100644
--- a/resippy/photogrammetry/dem/geotiff_dem.py
+++ b/resippy/photogrammetry/dem/geotiff_dem.py
@@ -29,7 +29,7 @@ class GeotiffDem(AbstractDem):
                           dst_fname,  # type: str
                           dst_epsg_code  # type: int
                           ):  # type: (...) -> None
-        new_gtiff = GeotiffImage.reproject_vertical_datum(self.gtiff, dst_fname, dst_epsg_code)
+        new_gtiff = GeotiffImage.reproject_vertical_datum(self.gtiff, dst_fname, dst_epsg_code, self.nodata_value)
         self.gtiff.close_image()
         self.set_geotiff_image(new_gtiff)
 
-- 
2.43.0


From 6bfa70b4381bd121c7966a60a7a24d651e07938e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:29 +0000
Subject: [PATCH 78/91] fix: scoring an image without a ledger raised

---
 .../neural_net_model_scoring/keras_image_scoring.py            | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py b/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py
index 5e04b8e..a211544 100644
--- a/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py
+++ b/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py
@@ -43,7 +43,8 @@ def chip_and_score_image(input_image,               # type: np.ndarray
 
         preds = trained_keras_model.predict(chip)
         scores.append(preds)
-        atk_chain_ledger.set_status('scoring image chips', (i / n_chips) * 100)
+        if atk_chain_ledger is not None:
+            atk_chain_ledger.set_status('scoring image chips', (i / n_chips) * 100)
 
     scores = np.squeeze(np.array(scores))
     if labels is not None and thing_to_find is not None:
-- 
2.43.0


From b6b779cb362ee6d04d186f7d4564abd10653584a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:29 +0000
Subject: [PATCH 79/91] fix: scoring an image used a function that scipy no
 longer has

---
 .../neural_net_model_scoring/keras_image_scoring.py           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py b/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py
index a211544..983827e 100644
--- a/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py
+++ b/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py
@@ -1,7 +1,7 @@
 import numpy as np
 import resippy.utils.image_utils.image_chipper as image_chipper
 from keras.preprocessing.image import img_to_array
-import scipy.misc as scipy_misc
+import resippy.utils.image_utils.image_utils as image_utils
 from keras.models import Model
 
 
@@ -33,7 +33,7 @@ def chip_and_score_image(input_image,               # type: np.ndarray
 
     n_chips = len(image_chips)
     for i, chip in enumerate(image_chips):
-        chip = scipy_misc.imresize(chip, (target_chip_size_y, target_chip_size_x))
+        chip = image_utils.resize_image(chip, target_chip_size_y, target_chip_size_x)
         chip = img_to_array(chip)  # shape is (ny, nx, 3)
         chip = np.expand_dims(chip, axis=0)  # Now shape is (1 ,ny, nx, 3)
         if normalize_method == "divide_by_255":
-- 
2.43.0


From b4e112babc1c8e6cf087fa3e10f6e6acbbbe7f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:29 +0000
Subject: [PATCH 80/91] fix: scores of one label raised for an image of one
 chip or a model of one class

---
 .../neural_net_model_scoring/keras_image_scoring.py         | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py b/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py
index 983827e..a407e6c 100644
--- a/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py
+++ b/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py
@@ -46,8 +46,10 @@ def chip_and_score_image(input_image,               # type: np.ndarray
         if atk_chain_ledger is not None:
             atk_chain_ledger.set_status('scoring image chips', (i / n_chips) * 100)
 
-    scores = np.squeeze(np.array(scores))
+    scores = np.array(scores)
     if labels is not None and thing_to_find is not None:
         thing_to_find_index = labels.index(thing_to_find)
-        scores = scores[:, thing_to_find_index]
+        scores = np.reshape(scores, (n_chips, -1))[:, thing_to_find_index]
+    else:
+        scores = np.squeeze(scores)
     return scores, upper_left_yx_locs
-- 
2.43.0


From 29779a7edbabcdba2ed178d156266b3def72be04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:18 +0000
Subject: [PATCH 81/91] fix: report GeoTIFF files that could not be written
 completely

---
 .../earth_overhead/geotiff/geotiff_image.py    | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
index c996d6f..80b5cda 100644
--- a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
+++ b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
@@ -145,12 +145,26 @@ class GeotiffImage(AbstractEarthOverheadImage):
         dataset.SetProjection(self.get_point_calculator().get_gdal_projection_wkt())
         if self.get_image_data() is None:
             self.set_image_data(self.read_all_image_data_from_disk())
+        gdal.ErrorReset()
         for band in range(self.get_metadata().get_n_bands()):
             dataset.GetRasterBand(band + 1).WriteArray(self.get_image_band(band))
             if self.get_metadata().get_nodata_val() is not None:
                 dataset.GetRasterBand(band + 1).SetNoDataValue(self._nodata_val_for_gdal())
         dataset.FlushCache()
         dataset = None
+        self._raise_if_not_written(fname)
+
+    @staticmethod
+    def _raise_if_not_written(fname):  # type: (str) -> None
+        # gdal reports some failed writes (for example on a full disk) as errors, others only show when reading the file
+        if gdal.GetLastErrorType() >= gdal.CE_Failure:
+            raise IOError('could not write ' + fname + ': ' + gdal.GetLastErrorMsg())
+        dataset = gdal.Open(fname)
+        if dataset is None:
+            raise IOError('could not write ' + fname)
+        for band in range(dataset.RasterCount):
+            if dataset.GetRasterBand(band + 1).ReadAsArray() is None:
+                raise IOError('could not write all of ' + fname)
 
     @staticmethod
     def gdalwarp_geotiff_image(image,           # type: GeotiffImage
@@ -168,7 +182,11 @@ class GeotiffImage(AbstractEarthOverheadImage):
         if dst_dataset is None:
             raise RuntimeError('could not warp the image to ' + dst_fname + ': ' + gdal.GetLastErrorMsg())
         src_dataset = None
+        gdal.ErrorReset()
+        dst_dataset.FlushCache()
         dst_dataset = None
+        if not dst_fname.startswith('/vsimem/'):
+            GeotiffImage._raise_if_not_written(dst_fname)
 
         return GeotiffImage.init_from_file(dst_fname)
 
-- 
2.43.0


From c1686d2936dde0315660e5c5e3ca45c287d6c456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:18 +0000
Subject: [PATCH 82/91] fix: report ENVI rasters that could not be written
 completely

---
 resippy/utils/envi_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resippy/utils/envi_utils.py b/resippy/utils/envi_utils.py
index b08e585..9e773a4 100644
--- a/resippy/utils/envi_utils.py
+++ b/resippy/utils/envi_utils.py
@@ -208,7 +208,8 @@ def write_envi_image(image_cube,                    # type: np.ndarray
         raw_data[:] = np.moveaxis(image_cube, 2, 0).ravel()
     else:
         raise ValueError("Interleave not supported: " + interleave)
-    raw_data.tofile(output_fname)
+    with open(output_fname, 'wb') as f:
+        f.write(raw_data.data)
 
     envi_dtype = numpy_dtype_to_envi_dtype(image_cube.dtype)
 
-- 
2.43.0


From fe3883599fa5e91daf003c1280171f68dca34f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:18 +0000
Subject: [PATCH 83/91] fix: report chips that could not be written completely

---
 resippy/utils/image_utils/image_chipper.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/image_utils/image_chipper.py b/resippy/utils/image_utils/image_chipper.py
index eb36858..f7c1e5b 100644
--- a/resippy/utils/image_utils/image_chipper.py
+++ b/resippy/utils/image_utils/image_chipper.py
@@ -3,6 +3,7 @@ from __future__ import division
 import numpy as np
 from numpy import ndarray
 from typing import Union
+import io
 import os
 import imageio
 import resippy.utils.image_utils.image_utils as image_utils
@@ -154,9 +155,14 @@ def write_chips_to_disk(image_chips,            # type: ndarray
         chip_fname = base_chip_fname + "_" + str(i).zfill(8)
         if fnames_list is not None:
             chip_fname = fnames_list[i]
-        chip_fname = chip_fname + "." + output_format.replace(".", "")
+        chip_extension = output_format.replace(".", "")
+        chip_fname = chip_fname + "." + chip_extension
         chip_fullpath = os.path.join(output_dir, chip_fname)
-        imageio.imsave(chip_fullpath, chip)
+        # encode in memory: some of the encoders do not report writes to the file that fail
+        chip_bytes = io.BytesIO()
+        imageio.imsave(chip_bytes, chip, format=chip_extension)
+        with open(chip_fullpath, 'wb') as f:
+            f.write(chip_bytes.getvalue())
 
         per = round(float(i) / float(n_chips) * 100.0)
         if per % 5 == 0:
-- 
2.43.0


From 4ac1295eff9c3bca655c0db251a5a7bb06ffb624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:46 +0000
Subject: [PATCH 84/91] fix: ground positions of pixels given as floats raised
 for images with stored positions

---
 .../earth_overhead_point_calculators/igm_point_calc.py         | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/igm_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/igm_point_calc.py
index 1ad7dd1..e699f38 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/igm_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/igm_point_calc.py
@@ -46,6 +46,9 @@ class IGMPointCalc(AbstractEarthOverheadPointCalc):
         return self._alts
 
     def _pixel_x_y_alt_to_lon_lat_native(self, pixel_xs, pixel_ys, alts=None, band=None):
+        # whole pixels may come as floats, as pixel grids do
+        pixel_xs = numpy.rint(pixel_xs).astype(int)
+        pixel_ys = numpy.rint(pixel_ys).astype(int)
         return self._lons[pixel_ys, pixel_xs], self._lats[pixel_ys, pixel_xs]
 
     def _lon_lat_alt_to_pixel_x_y_native(self, lons, lats, alts, band=None):
-- 
2.43.0


From 743bcebd4d4f56229c2ac7b36029eaf695b717c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:04 +0000
Subject: [PATCH 85/91] fix: longitudes and wander angles of navigation records
 across 180 degrees were interpolated the long way round

---
 resippy/photogrammetry/nav/applanix_eo_nav.py   | 2 +-
 resippy/photogrammetry/nav/applanix_sbet_nav.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/resippy/photogrammetry/nav/applanix_eo_nav.py b/resippy/photogrammetry/nav/applanix_eo_nav.py
index b477da6..c4f62a2 100644
--- a/resippy/photogrammetry/nav/applanix_eo_nav.py
+++ b/resippy/photogrammetry/nav/applanix_eo_nav.py
@@ -104,7 +104,7 @@ class ApplanixEONav(AbstractNav):
             xs = self._get_xs(left_indexes, right_indexes)
 
             records = np.array([{key: value[i] for key, value in {
-                key: (self._interp_degrees if key in ('omega', 'phi', 'kappa') else self._linear_interp)(
+                key: (self._interp_degrees if key in ('omega', 'phi', 'kappa', 'lon') else self._linear_interp)(
                     gps_times, xs, np.array([value[left_indexes], value[right_indexes]])) for
                 key, value in self._nav_data.items()}.items()} for i in range(gps_times.size)])
 
diff --git a/resippy/photogrammetry/nav/applanix_sbet_nav.py b/resippy/photogrammetry/nav/applanix_sbet_nav.py
index cd27d37..d67fd07 100644
--- a/resippy/photogrammetry/nav/applanix_sbet_nav.py
+++ b/resippy/photogrammetry/nav/applanix_sbet_nav.py
@@ -90,7 +90,7 @@ class ApplanixSBETNav(AbstractNav):
             xs = self._get_xs(left_indexes, right_indexes)
 
             records = np.array([{key: value[i] for key, value in {
-                key: (self._interp_degrees if key in ('roll', 'pitch', 'azimuth') else self._linear_interp)(
+                key: (self._interp_degrees if key in ('x', 'roll', 'pitch', 'azimuth', 'wander_angle') else self._linear_interp)(
                     gps_times, xs, np.array([value[left_indexes], value[right_indexes]])) for
                 key, value in self._nav_data.items()}.items()} for i in range(gps_times.size)])
 
@@ -124,7 +124,7 @@ class ApplanixSBETNav(AbstractNav):
 
             lons_left = self._nav_data['x'][left_indexes]
             lons_right = self._nav_data['x'][right_indexes]
-            lons = self._linear_interp(gps_times, xs, np.array([lons_left, lons_right]))
+            lons = self._interp_degrees(gps_times, xs, np.array([lons_left, lons_right]))
 
             return lons
 
-- 
2.43.0


From 7699d466b15db51bd477a94c6accaee884cd69bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:11 +0000
Subject: [PATCH 86/91] fix: ENVI images in files that end too soon were read
 as if zeros followed

---
 resippy/image_objects/envi/envi_image.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/resippy/image_objects/envi/envi_image.py b/resippy/image_objects/envi/envi_image.py
index c492b0b..ec3e85e 100644
--- a/resippy/image_objects/envi/envi_image.py
+++ b/resippy/image_objects/envi/envi_image.py
@@ -32,8 +32,22 @@ class EnviImage(AbstractImage):
 
         metadata = EnviMetadata.init_from_header(header_file_path)
         envi_image.set_metadata(metadata)
+        envi_image._check_file_size(image_file_path)
         return envi_image
 
+    def _check_file_size(self,
+                         image_file_path  # type: str
+                         ):  # type: (...) -> None
+        header = self.get_metadata().envi_header
+        if self._dset is None or int(header.get('file compression', 0)) != 0:
+            return
+        # the part of the image that is missing from a file which ends too soon would be read as zeros
+        sample_size = gdal.GetDataTypeSize(self._dset.GetRasterBand(1).DataType) // 8
+        n_samples = self._dset.RasterXSize * self._dset.RasterYSize * self._dset.RasterCount
+        n_bytes = header.get('header offset', 0) + n_samples * sample_size
+        if os.path.getsize(image_file_path) < n_bytes:
+            raise IOError("ENVI image file ends too soon: " + image_file_path)
+
     def read_band_from_disk(self,
                             band_number  # type: int
                             ):  # type: (...) -> ndarray
-- 
2.43.0


From 63cd01f3a486ec378ecf2187878af1dcf8119c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:11 +0000
Subject: [PATCH 87/91] fix: the last value of BIL data that ends too soon was
 spread over the row

---
 resippy/utils/envi_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resippy/utils/envi_utils.py b/resippy/utils/envi_utils.py
index 9e773a4..a1f2aa7 100644
--- a/resippy/utils/envi_utils.py
+++ b/resippy/utils/envi_utils.py
@@ -263,6 +263,8 @@ def construct_image_cube_from_raw_data(raw_envi_data,       # type: np.ndarray
                                        nbands,              # type: int
                                        interleave,          # type: str
                                        ):                   # type: (...) -> np.ndarray
+    if raw_envi_data.size < ny * nx * nbands:
+        raise ValueError("The image data ends too soon.")
     image_cube = np.zeros((ny, nx, nbands), dtype=raw_envi_data.dtype)
     if interleave == 'bil':
         raw_data_counter = 0
-- 
2.43.0


From 451310bf469840e1c166ca7bef3a44bd221420e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:11 +0000
Subject: [PATCH 88/91] fix: Pix4D files that end within a record gave
 incomplete matrices

---
 resippy/utils/pix4d_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resippy/utils/pix4d_utils.py b/resippy/utils/pix4d_utils.py
index ea57875..e38a736 100644
--- a/resippy/utils/pix4d_utils.py
+++ b/resippy/utils/pix4d_utils.py
@@ -18,6 +18,8 @@ def read_p_matrices(pmatrix_txt_file    # type: str
         line_no_linesep = string_utils.remove_newlines(line.strip())
         line_fields = line_no_linesep.split(' ')
         params = np.asarray(line_fields[1:], dtype=float)
+        if line_no_linesep and params.size != 12:
+            raise ValueError("not a complete projection matrix: " + line_no_linesep)
         fname = line_fields[0]
         p_matricies[fname] = params
     return p_matricies
@@ -56,7 +58,7 @@ def read_calibrated_camera_parameters(calibrated_params_file    # type: str
         tmp_list = np.array(file_params[6:7])
         camera_position_t = np.array([list(map(float, row.split())) for row in tmp_list])
         tmp_list = np.array(file_params[7:10])
-        camera_rotation_r = np.array([list(map(float, row.split())) for row in tmp_list])
+        camera_rotation_r = np.array([list(map(float, row.split())) for row in tmp_list]).reshape(3, 3)
         fname_params = {"n_x_pixels": int(image_w),
                         "n_y_pixels": int(image_h),
                         "camera_matrix_k": camera_matrix_k,
-- 
2.43.0


From 530903f5d7c8c1020b7314dab5eb7d6d4e30ff37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:27 +0000
Subject: [PATCH 89/91] fix: a bilinear warp missed the no-data value by
 rounding

---
 resippy/utils/image_utils/image_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resippy/utils/image_utils/image_utils.py b/resippy/utils/image_utils/image_utils.py
index 7e9f75c..ffd3d26 100644
--- a/resippy/utils/image_utils/image_utils.py
+++ b/resippy/utils/image_utils/image_utils.py
@@ -50,6 +50,9 @@ def grid_warp_image_band(image_to_warp,  # type: ndarray
 
     warped_image = sktransform.warp(image_to_warp, coords, preserve_range=True,
                                     mode='constant', cval=nodata_val, order=order)
+    # interpolating between no-data values may miss their value by rounding
+    ny, nx = np.shape(image_to_warp)[0:2]
+    warped_image[(coords[1] <= -1) | (coords[1] >= nx) | (coords[0] <= -1) | (coords[0] >= ny)] = nodata_val
     return warped_image
 
 
-- 
2.43.0


From db58c9d33e7116f9a0ed75a9701fb18d2a9d512a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:02 +0000
Subject: [PATCH 90/91] fix: positions and pixels given in single precision
 were off by up to half a pixel in most sensor models

---
 .../abstract_earth_overhead_point_calc.py                     | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
index 440395e..237a763 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
@@ -121,6 +121,8 @@ class AbstractEarthOverheadPointCalc:
         # now actually do the calculations with everything in a standard form
         if world_proj is None:
             world_proj = self.get_projection()
+        # world coordinates have too many digits for calculations in single precision
+        lons, lats, alts = (np.asanyarray(v, dtype=float) for v in (lons, lats, alts))
         if world_proj.srs != self.get_projection().srs:
             lons, lats, alts = proj_transform(world_proj, self.get_projection(), lons, lats, alts)
         pixel_coords = self._lon_lat_alt_to_pixel_x_y_native(lons, lats, alts, band)
@@ -163,6 +165,8 @@ class AbstractEarthOverheadPointCalc:
         """
         if world_proj is None:
             world_proj = self.get_projection()
+        # world coordinates have too many digits for calculations in single precision, numbers stay numbers
+        pixel_xs, pixel_ys = (np.asanyarray(v, dtype=float)[()] for v in (pixel_xs, pixel_ys))
         if self._pixel_x_y_alt_to_lon_lat_native(pixel_xs, pixel_ys, alts, band) is not None:
             native_lons, native_lats = self._pixel_x_y_alt_to_lon_lat_native(pixel_xs, pixel_ys, alts, band=band)
         else:
-- 
2.43.0


From d3117053694f7ba76c374560e270e1f8361d76da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:42 +0000
Subject: [PATCH 91/91] fix: NaN as the no-data value was averaged into pixel
 values and left opaque in masked orthos

---
 resippy/photogrammetry/ortho_tools.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index 6464ea9..6896f96 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -34,6 +34,8 @@ def get_pixel_values(image_object,  # type: AbstractEarthOverheadImage
                      ):  # type: (...) -> ndarray
 
     nodata = image_object.get_metadata().get_nodata_val()
+    # NaN is not equal to itself
+    nodata_is_nan = nodata is not None and np.isnan(nodata)
     wh = int(np.round(window/2.0))
     pix_vals = []
     for band in range(image_object.get_metadata().get_n_bands()):
@@ -49,7 +51,7 @@ def get_pixel_values(image_object,  # type: AbstractEarthOverheadImage
                 ymin = max(item[1] - wh, 0)
                 ymax = max(item[1] + wh, 0)
                 pix_win = img[ymin:ymax, xmin:xmax]
-                good_inds = pix_win != nodata
+                good_inds = ~np.isnan(pix_win) if nodata_is_nan else pix_win != nodata
                 val = np.mean(pix_win[good_inds])
             except IndexError:
                 val = np.NaN
@@ -178,8 +180,11 @@ def mask_image(image, nodata_val=0):
     """
     layer = image[:, :, 0]  # Take band 0 as the reference layer to mask the image.
     alpha = layer.copy()
-    alpha[layer == nodata_val] = 0
-    alpha[layer != nodata_val] = 255
+    # NaN is not equal to itself
+    nodata_is_nan = nodata_val is not None and np.isnan(nodata_val)
+    nodata_locs = np.isnan(layer) if nodata_is_nan else layer == nodata_val
+    alpha[nodata_locs] = 0
+    alpha[~nodata_locs] = 255
     image = np.dstack((image, alpha))
     return image
 
-- 
2.43.0

