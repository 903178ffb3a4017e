From e551a228b5553f5563256214219e68708614ebb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:45 +0000
Subject: [PATCH 01/26] fix: longitude of interpolated points lying exactly on
 the antimeridian

Deriving the longitude as arccos(x/r)*sign(y) gives 0 instead of 180 when y
is exactly 0 and x is negative, eg halfway between tie points at 179 and -179
degrees, and NaN at the poles.
---
 geotiepoints/_modis_utils.pyx   | 4 ++--
 geotiepoints/geointerpolator.py | 2 +-
 geotiepoints/viiinterpolator.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/geotiepoints/_modis_utils.pyx b/geotiepoints/_modis_utils.pyx
index b290cb0..1d1b02a 100644
--- a/geotiepoints/_modis_utils.pyx
+++ b/geotiepoints/_modis_utils.pyx
@@ -3,7 +3,7 @@ from functools import wraps
 
 cimport cython
 cimport numpy as np
-from libc.math cimport asin, sin, cos, sqrt, acos, M_PI
+from libc.math cimport asin, sin, cos, sqrt, acos, atan2, M_PI
 import numpy as np
 
 np.import_array()
@@ -55,7 +55,7 @@ cdef void xyz2lonlat(
             x = <np.float64_t>xyz[i, j, 0]
             y = <np.float64_t>xyz[i, j, 1]
             z = <np.float64_t>xyz[i, j, 2]
-            lons[i, j] = rad2deg(acos(x / sqrt(x ** 2 + y ** 2))) * _sign(y)
+            lons[i, j] = rad2deg(atan2(y, x))
             # if we are at low latitudes - small z, then get the
             # latitudes only from z. If we are at high latitudes (close to the poles)
             # then derive the latitude using x and y:
diff --git a/geotiepoints/geointerpolator.py b/geotiepoints/geointerpolator.py
index 356e780..b2eb3e2 100644
--- a/geotiepoints/geointerpolator.py
+++ b/geotiepoints/geointerpolator.py
@@ -61,7 +61,7 @@ def lonlat2xyz(lons, lats, radius=EARTH_RADIUS):
 
 def xyz2lonlat(x__, y__, z__, radius=EARTH_RADIUS, thr=0.8, low_lat_z=True):
     """Get longitudes from cartesian coordinates."""
-    lons = np.rad2deg(np.arccos(x__ / np.sqrt(x__ ** 2 + y__ ** 2))) * np.sign(y__)
+    lons = np.rad2deg(np.arctan2(y__, x__))
     lats = np.sign(z__) * (90 - np.rad2deg(np.arcsin(np.sqrt(x__ ** 2 + y__ ** 2) / radius)))
     if low_lat_z:
         # if we are at low latitudes - small z, then get the
diff --git a/geotiepoints/viiinterpolator.py b/geotiepoints/viiinterpolator.py
index 6b4add8..421a29f 100644
--- a/geotiepoints/viiinterpolator.py
+++ b/geotiepoints/viiinterpolator.py
@@ -168,7 +168,7 @@ def _xyz2lonlat(x_coords, y_coords, z_coords, z_threshold_use_xy=0.8):
     """
     r = np.sqrt(x_coords ** 2 + y_coords ** 2)
     thr_z = z_threshold_use_xy * MEAN_EARTH_RADIUS
-    lons = np.rad2deg(np.arccos(x_coords / r)) * np.sign(y_coords)
+    lons = np.rad2deg(np.arctan2(y_coords, x_coords))
     # Compute latitude from z at low z and from x and y at high z
     lats = xr.where(
         np.logical_and(np.less(z_coords, thr_z), np.greater(z_coords, -thr_z)),
-- 
2.43.0


From 54dbc76165dc440e71c3103ebb85edefd47016cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:47 +0000
Subject: [PATCH 02/26] fix: chunked interpolation ignoring the requested fine
 points

The dask variant interpolated to the pixel indices of each chunk instead of the
fine points passed by the user, unless these happened to be range(n).
---
 geotiepoints/interpolator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geotiepoints/interpolator.py b/geotiepoints/interpolator.py
index c35fbbf..b749b2b 100644
--- a/geotiepoints/interpolator.py
+++ b/geotiepoints/interpolator.py
@@ -271,11 +271,11 @@ class AbstractSingleInterpolator(ABC):
         token = tokenize(chunks, self.points, self.values, fine_points, interpolator_call_kwargs)
         name = 'interpolate-' + token
 
-        interpolate_slices = partial(self.interpolate_slices, **interpolator_call_kwargs)
+        interpolate_chunk = partial(self.interpolate_numpy, **interpolator_call_kwargs)
 
-        dskx = {(name, ) + position: (interpolate_slices,
-                                      slices)
-                for position, slices in _enumerate_chunk_slices(chunks)}
+        dskx = {(name, ) + position: (interpolate_chunk,
+                                      [v_fine_points[slice_y], h_fine_points[slice_x]])
+                for position, (slice_y, slice_x) in _enumerate_chunk_slices(chunks)}
 
         res = da.Array(dskx, name, shape=list(shape),
                        chunks=chunks,
-- 
2.43.0


From 888edffb3d303dc2e66400f6c21f95df9f7f6792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:57 +0000
Subject: [PATCH 03/26] fix: distinct interpolators sharing the same dask graph
 keys

The names of the dask arrays depended neither on the kind of interpolator nor
on the arguments it was set up with, so that eg a linear and a cubic spline of
the same values were mixed up when computed together.
---
 geotiepoints/interpolator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/geotiepoints/interpolator.py b/geotiepoints/interpolator.py
index b749b2b..5b9f8ff 100644
--- a/geotiepoints/interpolator.py
+++ b/geotiepoints/interpolator.py
@@ -239,6 +239,7 @@ class AbstractSingleInterpolator(ABC):
         So for example, to allow extrapolation, the kwargs can be `bounds_error=False, fill_value=None`.
         """
         self.interpolator = scipy_interpolator(points, values, **interpolator_init_kwargs)
+        self.interpolator_init_kwargs = interpolator_init_kwargs
         self.points = points
         self.values = values
 
@@ -268,7 +269,8 @@ class AbstractSingleInterpolator(ABC):
 
         chunks = normalize_chunks(chunks, shape, dtype=self.values.dtype)
 
-        token = tokenize(chunks, self.points, self.values, fine_points, interpolator_call_kwargs)
+        token = tokenize(type(self), self.interpolator_init_kwargs,
+                         chunks, self.points, self.values, fine_points, interpolator_call_kwargs)
         name = 'interpolate-' + token
 
         interpolate_chunk = partial(self.interpolate_numpy, **interpolator_call_kwargs)
@@ -331,6 +333,7 @@ class SingleSplineInterpolator(AbstractSingleInterpolator):
     def __init__(self, points, values, **interpolator_init_kwargs):
         """Set up the spline interpolator."""
         self.interpolator = RectBivariateSpline(*points, values, **interpolator_init_kwargs)
+        self.interpolator_init_kwargs = interpolator_init_kwargs
         self.points = points
         self.values = values
 
-- 
2.43.0


From ea321b57827b6e5c851f7acafcf0f574ae45178b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:54 +0000
Subject: [PATCH 04/26] fix: MODIS interpolation of incomplete scans or
 mismatched arrays

Only dask inputs were checked for being whole scans, and only the number of
dimensions of the first array was. Otherwise the interpolation read out of the
bounds of the inputs or returned uninitialized memory.
---
 geotiepoints/_modis_utils.pyx | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/geotiepoints/_modis_utils.pyx b/geotiepoints/_modis_utils.pyx
index 1d1b02a..8fe3c2e 100644
--- a/geotiepoints/_modis_utils.pyx
+++ b/geotiepoints/_modis_utils.pyx
@@ -99,14 +99,20 @@ def scanline_mapblocks(func):
     def _wrapper(*args, coarse_resolution=None, fine_resolution=None, **kwargs):
         if coarse_resolution is None or fine_resolution is None:
             raise ValueError("'coarse_resolution' and 'fine_resolution' are required keyword arguments.")
-        first_arr = [arr for arr in args if hasattr(arr, "ndim")][0]
-        if first_arr.ndim != 2 or first_arr.ndim != 2:
+        arrays = [arr for arr in args if hasattr(arr, "ndim")]
+        first_arr = arrays[0]
+        if any(arr.ndim != 2 for arr in arrays):
             raise ValueError("Expected 2D input arrays.")
+        if any(arr.shape != first_arr.shape for arr in arrays):
+            raise ValueError("Expected input arrays of the same shape.")
+        rows_per_scan = rows_per_scan_for_resolution(coarse_resolution)
+        if first_arr.shape[0] % rows_per_scan != 0:
+            raise ValueError("Input longitude/latitude data does not consist of "
+                             f"whole scans ({rows_per_scan} rows per scan).")
         if hasattr(first_arr, "compute"):
             # assume it is dask or xarray with dask, ensure proper chunk size
             # if DataArray get just the dask array
             dask_args = _extract_dask_arrays_from_args(args)
-            rows_per_scan = rows_per_scan_for_resolution(coarse_resolution)
             rechunked_args = _rechunk_dask_arrays_if_needed(dask_args, rows_per_scan)
             results = _call_map_blocks_interp(
                 func,
@@ -167,15 +173,11 @@ def _rechunk_dask_arrays_if_needed(args, rows_per_scan: int):
     first_arr = [arr for arr in args if hasattr(arr, "ndim")][0]
     row_chunks = first_arr.chunks[0]
     col_chunks = first_arr.chunks[1]
-    num_rows = first_arr.shape[0]
     num_cols = first_arr.shape[1]
     good_row_chunks = all(x % rows_per_scan == 0 for x in row_chunks)
     good_col_chunks = len(col_chunks) == 1 and col_chunks[0] != num_cols
     all_orig_chunks = [arr.chunks for arr in args if hasattr(arr, "chunks")]
 
-    if num_rows % rows_per_scan != 0:
-        raise ValueError("Input longitude/latitude data does not consist of "
-                         "whole scans (10 rows per scan).")
     all_same_chunks = all(
         all_orig_chunks[0] == some_chunks
         for some_chunks in all_orig_chunks[1:]
-- 
2.43.0


From 5872905cb3340a4dcd730e186217d3e3c3388220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:58 +0000
Subject: [PATCH 05/26] fix: MODIS interpolation of dask arrays with chunks
 smaller than a scan

These were rechunked to chunks of 0 rows, failing with a ZeroDivisionError.
---
 geotiepoints/_modis_utils.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotiepoints/_modis_utils.pyx b/geotiepoints/_modis_utils.pyx
index 8fe3c2e..049b6f9 100644
--- a/geotiepoints/_modis_utils.pyx
+++ b/geotiepoints/_modis_utils.pyx
@@ -185,7 +185,7 @@ def _rechunk_dask_arrays_if_needed(args, rows_per_scan: int):
     if good_row_chunks and good_col_chunks and all_same_chunks:
         return args
 
-    new_row_chunks = (row_chunks[0] // rows_per_scan) * rows_per_scan
+    new_row_chunks = max(row_chunks[0] // rows_per_scan, 1) * rows_per_scan
     new_args = [arr.rechunk((new_row_chunks, -1)) if hasattr(arr, "chunks") else arr for arr in args]
     return new_args
 
-- 
2.43.0


From f5a282e9ee1d6592e2263b3b85139c8ccc0c5282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:25 +0000
Subject: [PATCH 06/26] fix: MODIS interpolation of DataArrays wrapping numpy
 arrays

Numpy backed DataArrays failed with an AttributeError, and numpy arrays passed
next to dask arrays were handed over whole to each of the blocks.
---
 geotiepoints/_modis_utils.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotiepoints/_modis_utils.pyx b/geotiepoints/_modis_utils.pyx
index 049b6f9..2bf1b9b 100644
--- a/geotiepoints/_modis_utils.pyx
+++ b/geotiepoints/_modis_utils.pyx
@@ -136,7 +136,7 @@ def scanline_mapblocks(func):
 
 
 def _extract_dask_arrays_from_args(args):
-    return [arr_obj.data if hasattr(arr_obj, "dims") else arr_obj for arr_obj in args]
+    return [da.asarray(arr_obj.data if hasattr(arr_obj, "dims") else arr_obj) for arr_obj in args]
 
 
 def _call_map_blocks_interp(func, coarse_resolution, fine_resolution, *args, **kwargs):
-- 
2.43.0


From 9e770a619b48023d748acd33b6c60bb96887c1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:51 +0000
Subject: [PATCH 07/26] fix: shape of the dask arrays for MODIS scans of a non
 standard width

The simple interpolation handles any number of columns, but the dask arrays
were always declared to be 1354 (1km) pixels wide.
---
 geotiepoints/_modis_utils.pyx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/geotiepoints/_modis_utils.pyx b/geotiepoints/_modis_utils.pyx
index 2bf1b9b..b6756d4 100644
--- a/geotiepoints/_modis_utils.pyx
+++ b/geotiepoints/_modis_utils.pyx
@@ -143,8 +143,11 @@ def _call_map_blocks_interp(func, coarse_resolution, fine_resolution, *args, **k
     first_arr = [arr for arr in args if hasattr(arr, "ndim")][0]
     res_factor = coarse_resolution // fine_resolution
     new_row_chunks = tuple(x * res_factor for x in first_arr.chunks[0])
-    fine_pixels_per_1km = {250: 4, 500: 2, 1000: 1}[fine_resolution]
-    fine_scan_width = 1354 * fine_pixels_per_1km
+    if coarse_resolution == 5000:
+        # the tie points don't cover the full width of the scan
+        fine_scan_width = 1354 * (1000 // fine_resolution)
+    else:
+        fine_scan_width = first_arr.shape[1] * res_factor
     new_col_chunks = (fine_scan_width,)
     wrapped_func = _map_blocks_handler(func)
     res = da.map_blocks(wrapped_func, *args,
-- 
2.43.0


From 7da36f5c0e0d4970bc3eb82f28dc08c0c4b1fc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:56 +0000
Subject: [PATCH 08/26] fix: zenith angle based MODIS interpolation of 64-bit
 data

The pixel coordinates were always 32-bit, failing with a buffer dtype mismatch.
---
 geotiepoints/_modis_interpolator.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotiepoints/_modis_interpolator.pyx b/geotiepoints/_modis_interpolator.pyx
index bed18ee..5631867 100644
--- a/geotiepoints/_modis_interpolator.pyx
+++ b/geotiepoints/_modis_interpolator.pyx
@@ -145,8 +145,8 @@ cdef class MODISInterpolator:
         cdef floating[:, ::1] a_scan_view = a_scan
 
         cdef tuple coords_xy = self._get_coords()
-        cdef np.ndarray[floating, ndim=1] x = coords_xy[0]
-        cdef np.ndarray[floating, ndim=1] y = coords_xy[1]
+        cdef np.ndarray[floating, ndim=1] x = coords_xy[0].astype(lon1.dtype)
+        cdef np.ndarray[floating, ndim=1] y = coords_xy[1].astype(lon1.dtype)
         cdef floating[::1] x_view = x
         cdef floating[::1] y_view = y
 
-- 
2.43.0


From 00354a162b8c6917546995cf04aed2a5627ef606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:27 +0000
Subject: [PATCH 09/26] fix: zenith angle based MODIS interpolation of
 incomplete 1km scan widths

The 1km arrays were always taken as 1354 columns wide, so that narrower ones
gave uninitialized memory as result and wider ones wrote out of bounds.
---
 geotiepoints/_modis_interpolator.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geotiepoints/_modis_interpolator.pyx b/geotiepoints/_modis_interpolator.pyx
index 5631867..84f5ba1 100644
--- a/geotiepoints/_modis_interpolator.pyx
+++ b/geotiepoints/_modis_interpolator.pyx
@@ -34,6 +34,10 @@ def interpolate(
         raise NotImplementedError(
             "Can't interpolate if 5km tiepoints have less than 270 columns."
         )
+    if coarse_resolution == 1000 and lon1.shape[1] != 1354:
+        raise NotImplementedError(
+            "Can't interpolate if 1km geolocation doesn't have 1354 columns."
+        )
     interp = MODISInterpolator(coarse_resolution, fine_resolution, coarse_scan_width=coarse_scan_width or 0)
     return interp.interpolate(lon1, lat1, satz1)
 
-- 
2.43.0


From 981cdb5a04c4664aacc3b4b884344e373cfa7d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:00 +0000
Subject: [PATCH 10/26] fix: NaNs from zenith angle based MODIS interpolation
 at nadir

Two neighbouring tie points with a zenith angle of exactly 0 divided 0 by 0.
---
 geotiepoints/_modis_interpolator.pyx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/geotiepoints/_modis_interpolator.pyx b/geotiepoints/_modis_interpolator.pyx
index 84f5ba1..9cc60c7 100644
--- a/geotiepoints/_modis_interpolator.pyx
+++ b/geotiepoints/_modis_interpolator.pyx
@@ -64,6 +64,11 @@ cdef void _compute_expansion_alignment(floating[:, :] satz_a, floating [:, :] sa
             theta = _compute_theta(zeta, phi)
             # Workaround for tiepoints symmetrical about the subsatellite-track
             denominator = theta_a * 2 if theta_a == theta_b else theta_a - theta_b
+            if denominator == 0:
+                # Looking straight down, nothing to correct for
+                c_expansion[i, j] = 0
+                c_alignment[i, j] = 0
+                continue
 
             c_expansion[i, j] = 4 * (((theta_a + theta_b) / 2 - theta) / denominator)
 
-- 
2.43.0


From b5cdd65e63e595e37b86a402d691d71e03369b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:23 +0000
Subject: [PATCH 11/26] fix: MODIS interpolation from 5km to 500m and 250m

The pixel coordinates between the tie points didn't account for the resolution,
leading to errors of up to 19 and 26km, while the tie points themselves were
expanded correctly. With this the errors are the same as for 5km to 1km.
---
 geotiepoints/_modis_interpolator.pyx | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/geotiepoints/_modis_interpolator.pyx b/geotiepoints/_modis_interpolator.pyx
index 9cc60c7..d74b26a 100644
--- a/geotiepoints/_modis_interpolator.pyx
+++ b/geotiepoints/_modis_interpolator.pyx
@@ -239,22 +239,12 @@ cdef class MODISInterpolator:
 
     @cython.wraparound(True)
     cdef tuple _get_coords_5km(self):
-        cdef np.ndarray[np.float32_t, ndim=1] y = np.arange(self._fine_pixels_per_coarse_pixel * self._coarse_scan_length, dtype=np.float32) - 2
-        cdef np.ndarray[np.float32_t, ndim=1] x = (np.arange(self._fine_scan_width, dtype=np.float32) - 2) % self._fine_pixels_per_coarse_pixel
-        x[0] = -2
-        x[1] = -1
-        if self._coarse_scan_width == 271:
-            x[-2] = 5
-            x[-1] = 6
-        else:
-            # self._coarse_scan_width == 270
-            x[-7] = 5
-            x[-6] = 6
-            x[-5] = 7
-            x[-4] = 8
-            x[-3] = 9
-            x[-2] = 10
-            x[-1] = 11
+        # the first tie point is 2 1km pixels into the scan, and finer rows are centered within the 1km rows
+        cdef np.ndarray[np.float32_t, ndim=1] y = np.arange(self._fine_pixels_per_coarse_pixel * self._coarse_scan_length, dtype=np.float32) - (self._factor_5km + (self._factor_5km // 2 - 1) / 2.0)
+        cdef np.ndarray[np.float32_t, ndim=1] x = (np.arange(self._fine_scan_width, dtype=np.float32) - self._factor_5km) % self._fine_pixels_per_coarse_pixel
+        x[:self._factor_5km] -= self._fine_pixels_per_coarse_pixel
+        cdef Py_ssize_t last_tiepoint = (self._coarse_scan_width - 1) * self._fine_pixels_per_coarse_pixel + self._factor_5km
+        x[last_tiepoint:] = np.arange(self._fine_scan_width - last_tiepoint) + self._fine_pixels_per_coarse_pixel
         return x, y
 
     cdef void _interpolate_lons_lats(self,
-- 
2.43.0


From 3e17c17161fbda816800e82ac77dc25a525a87c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:30 +0000
Subject: [PATCH 12/26] fix: grid of one dimensional multilinear interpolators

Computing it failed with a TypeError.
---
 geotiepoints/multilinear.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/geotiepoints/multilinear.py b/geotiepoints/multilinear.py
index aedad4e..451f635 100644
--- a/geotiepoints/multilinear.py
+++ b/geotiepoints/multilinear.py
@@ -6,14 +6,9 @@ from geotiepoints.multilinear_cython import multilinear_interpolation
 
 
 def mlinspace(smin, smax, orders):
-    if len(orders) == 1:
-        res = np.atleast_2d(
-            np.linspace(np.array(smin), np.array(smax), np.array(orders)))
-        return res.copy()  # workaround for strange bug
-    else:
-        meshes = np.meshgrid(
-            *[np.linspace(smin[i], smax[i], orders[i]) for i in range(len(orders))], indexing='ij')
-        return np.vstack([l.flatten() for l in meshes])
+    meshes = np.meshgrid(
+        *[np.linspace(smin[i], smax[i], orders[i]) for i in range(len(orders))], indexing='ij')
+    return np.vstack([l.flatten() for l in meshes])
 
 
 class MultilinearInterpolator:
-- 
2.43.0


From 636c0daa6bafd8c3cf0097509b9b36409cf9c524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:06 +0000
Subject: [PATCH 13/26] fix: BasicSatelliteInterpolator with pandas >= 1.0

DataFrame.as_matrix was removed.
---
 geotiepoints/basic_interpolator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotiepoints/basic_interpolator.py b/geotiepoints/basic_interpolator.py
index 7b990dd..5245f76 100644
--- a/geotiepoints/basic_interpolator.py
+++ b/geotiepoints/basic_interpolator.py
@@ -54,10 +54,10 @@ class BasicSatelliteInterpolator(object):
             return self._pandas_interp(data, self.row_indices)
         
         if axis == 1:
-            data_transposed = data.as_matrix().T
+            data_transposed = data.to_numpy().T
             data_interpol_transposed = self._pandas_interp(data_transposed, 
                                                             self.col_indices)
-            data_interpol = data_interpol_transposed.as_matrix().T
+            data_interpol = data_interpol_transposed.to_numpy().T
 
             return data_interpol
 
-- 
2.43.0


From a4a925217eb98455652324b1be6f9cce5f711b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:32 +0000
Subject: [PATCH 14/26] fix: filling the row borders of tie point grids not
 evenly spread in the chunks

The tie points of a chunk were found by scaling their position with the ratio of
the number of fine rows to the number of tie point rows, which only works when
the tie points divide the lines evenly. Tie points were dropped otherwise (or the
filling crashed, eg for modis5kmto1km), and border rows were duplicated when the
tie points already reached the border.
---
 geotiepoints/interpolator.py | 70 ++++++++++++++++++++----------------
 1 file changed, 40 insertions(+), 30 deletions(-)

diff --git a/geotiepoints/interpolator.py b/geotiepoints/interpolator.py
index 5b9f8ff..183a649 100644
--- a/geotiepoints/interpolator.py
+++ b/geotiepoints/interpolator.py
@@ -126,9 +126,9 @@ class Interpolator:
         """Add the first and last column to the data by extrapolation."""
         first = True
         last = True
-        if self.col_indices[0] == self.hcol_indices[0]:
+        if self.col_indices[0] <= self.hcol_indices[0]:
             first = False
-        if self.col_indices[-1] == self.hcol_indices[-1]:
+        if self.col_indices[-1] >= self.hcol_indices[-1]:
             last = False
         for num, data in enumerate(self.tie_data):
             self.tie_data[num] = self._extrapolate_cols(data, first, last)
@@ -144,25 +144,27 @@ class Interpolator:
             self.col_indices = np.concatenate((self.col_indices,
                                                np.array([self.hcol_indices[-1]])))
 
-    def _extrapolate_rows(self, data, row_indices, first_index, last_index):
+    def _extrapolate_rows(self, data, row_indices, first_index, last_index, first=True, last=True):
         """Extrapolate the rows of data, to get the first and last together with the data."""
-        pos = row_indices[:2]
-        first_row = _linear_extrapolate(pos,
-                                        (data[0, :], data[1, :]),
-                                        first_index)
-        pos = row_indices[-2:]
-        last_row = _linear_extrapolate(pos,
-                                       (data[-2, :], data[-1, :]),
-                                       last_index)
-        return np.vstack((np.expand_dims(first_row, 0),
-                          data,
-                          np.expand_dims(last_row, 0)))
+        rows = [data]
+        if first:
+            pos = row_indices[:2]
+            first_row = _linear_extrapolate(pos,
+                                            (data[0, :], data[1, :]),
+                                            first_index)
+            rows.insert(0, np.expand_dims(first_row, 0))
+        if last:
+            pos = row_indices[-2:]
+            last_row = _linear_extrapolate(pos,
+                                           (data[-2, :], data[-1, :]),
+                                           last_index)
+            rows.append(np.expand_dims(last_row, 0))
+        return np.vstack(rows)
 
     def _fill_row_borders(self):
         """Add the first and last rows to the data by extrapolation."""
         lines = len(self.hrow_indices)
         chunk_size = self.chunk_size or lines
-        factor = len(self.hrow_indices) / len(self.row_indices)
 
         tmp_data = []
         for _num in range(len(self.tie_data)):
@@ -170,24 +172,32 @@ class Interpolator:
         row_indices = []
 
         for index in range(0, lines, chunk_size):
-            indices = np.logical_and(self.row_indices >= index / factor,
-                                     self.row_indices < (index + chunk_size) / factor)
-            ties = np.argwhere(indices).squeeze()
-            tiepos = self.row_indices[indices].squeeze()
+            first_index = self.hrow_indices[index]
+            last_index = self.hrow_indices[index + chunk_size - 1]
+            # the chunk has all the tie points until the first line of the next chunk
+            indices = np.full(len(self.row_indices), True)
+            if index > 0:
+                indices &= self.row_indices >= first_index
+            if index + chunk_size < lines:
+                indices &= self.row_indices < self.hrow_indices[index + chunk_size]
+            tiepos = self.row_indices[indices]
+            if len(tiepos) == 0:
+                continue
+            first = bool(tiepos[0] > first_index)
+            last = bool(tiepos[-1] < last_index)
 
             for num, data in enumerate(self.tie_data):
-                to_extrapolate = data[ties, :]
-                if len(to_extrapolate) > 0:
-                    extrapolated = self._extrapolate_rows(to_extrapolate,
-                                                          tiepos,
-                                                          self.hrow_indices[
-                                                              index],
-                                                          self.hrow_indices[index + chunk_size - 1])
-                    tmp_data[num].append(extrapolated)
-
-            row_indices.append(np.array([self.hrow_indices[index]]))
+                tmp_data[num].append(self._extrapolate_rows(data[indices, :],
+                                                            tiepos,
+                                                            first_index,
+                                                            last_index,
+                                                            first, last))
+
+            if first:
+                row_indices.append(np.array([first_index]))
             row_indices.append(tiepos)
-            row_indices.append(np.array([self.hrow_indices[index + chunk_size - 1]]))
+            if last:
+                row_indices.append(np.array([last_index]))
 
         for num in range(len(self.tie_data)):
             self.tie_data[num] = np.vstack(tmp_data[num])
-- 
2.43.0


From a21ae3cd5a06504accf6890699022d9e9988b829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:53 +0000
Subject: [PATCH 15/26] fix: MODIS interpolation of read-only arrays

---
 geotiepoints/_modis_interpolator.pyx        | 6 +++---
 geotiepoints/_simple_modis_interpolator.pyx | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/geotiepoints/_modis_interpolator.pyx b/geotiepoints/_modis_interpolator.pyx
index d74b26a..bfaddff 100644
--- a/geotiepoints/_modis_interpolator.pyx
+++ b/geotiepoints/_modis_interpolator.pyx
@@ -142,9 +142,9 @@ cdef class MODISInterpolator:
             np.ndarray[floating, ndim=2] lat1,
             np.ndarray[floating, ndim=2] satz1):
         """Interpolate MODIS geolocation from 'coarse_resolution' to 'fine_resolution'."""
-        lon1 = np.ascontiguousarray(lon1)
-        lat1 = np.ascontiguousarray(lat1)
-        satz1 = np.ascontiguousarray(satz1)
+        lon1 = np.require(lon1, requirements=["C", "W"])
+        lat1 = np.require(lat1, requirements=["C", "W"])
+        satz1 = np.require(satz1, requirements=["C", "W"])
 
         cdef int num_fine_scan_rows = self._coarse_scan_length * self._fine_pixels_per_coarse_pixel
         cdef int num_fine_scan_cols = self._fine_scan_width
diff --git a/geotiepoints/_simple_modis_interpolator.pyx b/geotiepoints/_simple_modis_interpolator.pyx
index f1e4c58..13eed5c 100644
--- a/geotiepoints/_simple_modis_interpolator.pyx
+++ b/geotiepoints/_simple_modis_interpolator.pyx
@@ -15,8 +15,8 @@ def interpolate_geolocation_cartesian(
         np.ndarray[floating, ndim=2] lat_array,
         unsigned int coarse_resolution,
         unsigned int fine_resolution):
-    lon_array = np.ascontiguousarray(lon_array)
-    lat_array = np.ascontiguousarray(lat_array)
+    lon_array = np.require(lon_array, requirements=["C", "W"])
+    lat_array = np.require(lat_array, requirements=["C", "W"])
     cdef unsigned int rows_per_scan = rows_per_scan_for_resolution(coarse_resolution)
     cdef unsigned int res_factor = coarse_resolution // fine_resolution
     cdef Py_ssize_t num_rows = lon_array.shape[0]
-- 
2.43.0


From 3371abfc6b48576f3e79ba8fd3f6f9aa4c5ceb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:01 +0000
Subject: [PATCH 16/26] fix: multilinear interpolation of read-only arrays

---
 geotiepoints/multilinear.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/geotiepoints/multilinear.py b/geotiepoints/multilinear.py
index 451f635..fb231a6 100644
--- a/geotiepoints/multilinear.py
+++ b/geotiepoints/multilinear.py
@@ -54,9 +54,9 @@ class MultilinearInterpolator:
     __grid__ = None
 
     def __init__(self, smin, smax, orders, values=None, dtype=np.float64):
-        self.smin = np.asarray(smin, dtype=dtype)
-        self.smax = np.asarray(smax, dtype=dtype)
-        self.orders = np.asarray(orders, dtype="long")
+        self.smin = np.require(smin, dtype=dtype, requirements=["C", "W"])
+        self.smax = np.require(smax, dtype=dtype, requirements=["C", "W"])
+        self.orders = np.require(orders, dtype="long", requirements=["C", "W"])
         self.d = len(orders)
         self.dtype = dtype
         if values is not None:
@@ -69,10 +69,10 @@ class MultilinearInterpolator:
         return self.__grid__
 
     def set_values(self, values):
-        self.values = np.ascontiguousarray(values, dtype=self.dtype)
+        self.values = np.require(values, dtype=self.dtype, requirements=["C", "W"])
 
     def interpolate(self, s):
-        s = np.ascontiguousarray(s, dtype=self.dtype)
+        s = np.require(s, dtype=self.dtype, requirements=["C", "W"])
         a = multilinear_interpolation(
             self.smin, self.smax, self.orders, self.values, s)
         return a
-- 
2.43.0


From 88695711027397c5411014ea51a7ac473764d827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:01 +0000
Subject: [PATCH 17/26] fix: crashes of MODIS interpolation with unsupported
 resolutions or widths

---
 geotiepoints/_modis_interpolator.pyx      | 7 ++++++-
 geotiepoints/simple_modis_interpolator.py | 5 +++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/geotiepoints/_modis_interpolator.pyx b/geotiepoints/_modis_interpolator.pyx
index bfaddff..4232820 100644
--- a/geotiepoints/_modis_interpolator.pyx
+++ b/geotiepoints/_modis_interpolator.pyx
@@ -30,7 +30,12 @@ def interpolate(
     (N rows per scan) and contain the entire scan width.
 
     """
-    if coarse_resolution == 5000 and coarse_scan_width not in (0, 270, 271):
+    if coarse_resolution not in (1000, 5000) or fine_resolution not in (250, 500, 1000):
+        raise NotImplementedError(
+            f"Can't interpolate from {coarse_resolution}m to {fine_resolution}m resolution."
+        )
+    if coarse_resolution == 5000 and (
+            lon1.shape[1] not in (270, 271) or lon1.shape[1] != (coarse_scan_width or 271)):
         raise NotImplementedError(
             "Can't interpolate if 5km tiepoints have less than 270 columns."
         )
diff --git a/geotiepoints/simple_modis_interpolator.py b/geotiepoints/simple_modis_interpolator.py
index 7da37f1..0cc1afd 100644
--- a/geotiepoints/simple_modis_interpolator.py
+++ b/geotiepoints/simple_modis_interpolator.py
@@ -37,6 +37,11 @@ def interpolate_geolocation_cartesian(lon_array, lat_array, coarse_resolution, f
         A two-element tuple (lon, lat).
 
     """
+    if coarse_resolution != 1000 or fine_resolution not in (250, 500):
+        raise NotImplementedError(
+            f"Can't interpolate from {coarse_resolution}m to {fine_resolution}m resolution.")
+    if lon_array.shape[1] < 2:
+        raise ValueError("Can't interpolate geolocation with less than 2 columns.")
     return interp_cython(
         lon_array, lat_array, coarse_resolution, fine_resolution
     )
-- 
2.43.0


From 2e65e73a74eb658683cb7267b51cdbe825c94c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:01 +0000
Subject: [PATCH 18/26] fix: VII interpolation of longitudes and latitudes of
 different dimensions

---
 geotiepoints/viiinterpolator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotiepoints/viiinterpolator.py b/geotiepoints/viiinterpolator.py
index 421a29f..49d871b 100644
--- a/geotiepoints/viiinterpolator.py
+++ b/geotiepoints/viiinterpolator.py
@@ -109,7 +109,7 @@ def tie_points_geo_interpolation(longitude, latitude,
 
     """
     # Check that the two arrays have the same dimensions
-    if longitude.shape != latitude.shape:
+    if longitude.shape != latitude.shape or longitude.dims != latitude.dims:
         raise ValueError("The dimensions of longitude and latitude don't match")
 
     # Determine if the interpolation should be done in cartesian or geodetic coordinates
-- 
2.43.0


From dfcbb45fe4fcde48a0234487c3fcc3a2237ff4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:48 +0000
Subject: [PATCH 19/26] fix: truncation of integer data interpolated in one
 dimension

---
 geotiepoints/interpolator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotiepoints/interpolator.py b/geotiepoints/interpolator.py
index 183a649..2b1ea7f 100644
--- a/geotiepoints/interpolator.py
+++ b/geotiepoints/interpolator.py
@@ -225,7 +225,7 @@ class Interpolator:
         for num, data in enumerate(self.tie_data):
             self.new_data[num] = np.empty((len(self.hrow_indices),
                                            len(self.hcol_indices)),
-                                          data.dtype)
+                                          np.result_type(data.dtype, np.float32))
 
             for cnt in range(lines):
                 tck = splrep(self.col_indices, data[cnt, :], k=self.ky_, s=0)
-- 
2.43.0


From 239a216de0590454962d3fee17a0fe016e392624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:48 +0000
Subject: [PATCH 20/26] fix: results of an interpolator replaced by its next
 interpolation

---
 geotiepoints/interpolator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geotiepoints/interpolator.py b/geotiepoints/interpolator.py
index 2b1ea7f..f00183b 100644
--- a/geotiepoints/interpolator.py
+++ b/geotiepoints/interpolator.py
@@ -234,6 +234,7 @@ class Interpolator:
 
     def interpolate(self):
         """Do the interpolation, and return resulting longitudes and latitudes."""
+        self.new_data = [[] for _ in self.tie_data]
         self._interp()
 
         return self.new_data
-- 
2.43.0


From a132bb69b51a76eb286d9ca358ab119428a7daa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:51 +0000
Subject: [PATCH 21/26] fix: NaN latitudes on the equator when taken from the
 distance to the axis

---
 geotiepoints/geointerpolator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/geotiepoints/geointerpolator.py b/geotiepoints/geointerpolator.py
index b2eb3e2..d78caa9 100644
--- a/geotiepoints/geointerpolator.py
+++ b/geotiepoints/geointerpolator.py
@@ -62,7 +62,10 @@ def lonlat2xyz(lons, lats, radius=EARTH_RADIUS):
 def xyz2lonlat(x__, y__, z__, radius=EARTH_RADIUS, thr=0.8, low_lat_z=True):
     """Get longitudes from cartesian coordinates."""
     lons = np.rad2deg(np.arctan2(y__, x__))
-    lats = np.sign(z__) * (90 - np.rad2deg(np.arcsin(np.sqrt(x__ ** 2 + y__ ** 2) / radius)))
+    axis_distance = np.sqrt(x__ ** 2 + y__ ** 2) / radius
+    # rounding can take points of the equator further from the axis than the radius
+    axis_distance = np.where(abs(axis_distance - 1) < 1e-6, np.minimum(axis_distance, 1), axis_distance)
+    lats = np.sign(z__) * (90 - np.rad2deg(np.arcsin(axis_distance)))
     if low_lat_z:
         # if we are at low latitudes - small z, then get the
         # latitudes only from z. If we are at high latitudes (close to the poles)
-- 
2.43.0


From 1d31d5f27551f19df8f66ec97080bc5a5b70f330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:51 +0000
Subject: [PATCH 22/26] fix: NaN latitudes of VII pixels on the equator with a
 zero z threshold

---
 geotiepoints/viiinterpolator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/geotiepoints/viiinterpolator.py b/geotiepoints/viiinterpolator.py
index 49d871b..5b3095c 100644
--- a/geotiepoints/viiinterpolator.py
+++ b/geotiepoints/viiinterpolator.py
@@ -167,6 +167,8 @@ def _xyz2lonlat(x_coords, y_coords, z_coords, z_threshold_use_xy=0.8):
 
     """
     r = np.sqrt(x_coords ** 2 + y_coords ** 2)
+    # rounding can take points of the equator further from the axis than the radius
+    r = xr.where(abs(r - MEAN_EARTH_RADIUS) < 1e-6 * MEAN_EARTH_RADIUS, np.minimum(r, MEAN_EARTH_RADIUS), r)
     thr_z = z_threshold_use_xy * MEAN_EARTH_RADIUS
     lons = np.rad2deg(np.arctan2(y_coords, x_coords))
     # Compute latitude from z at low z and from x and y at high z
-- 
2.43.0


From 8bfe81d40e207087d2b4392aa6106b14c7b8f6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:52 +0000
Subject: [PATCH 23/26] fix: out of bounds reads with multilinear grids, values
 or points of inconsistent sizes

---
 geotiepoints/multilinear.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/geotiepoints/multilinear.py b/geotiepoints/multilinear.py
index fb231a6..7f30822 100644
--- a/geotiepoints/multilinear.py
+++ b/geotiepoints/multilinear.py
@@ -58,6 +58,8 @@ class MultilinearInterpolator:
         self.smax = np.require(smax, dtype=dtype, requirements=["C", "W"])
         self.orders = np.require(orders, dtype="long", requirements=["C", "W"])
         self.d = len(orders)
+        if self.smin.shape != (self.d,) or self.smax.shape != (self.d,) or (self.orders < 2).any():
+            raise ValueError("smin, smax and orders must have one item per dimension, with orders of at least 2.")
         self.dtype = dtype
         if values is not None:
             self.set_values(values)
@@ -69,10 +71,15 @@ class MultilinearInterpolator:
         return self.__grid__
 
     def set_values(self, values):
-        self.values = np.require(values, dtype=self.dtype, requirements=["C", "W"])
+        values = np.require(values, dtype=self.dtype, requirements=["C", "W"])
+        if values.ndim != 2 or values.shape[1] != np.prod(self.orders):
+            raise ValueError("Expected lines of one value per point of the grid.")
+        self.values = values
 
     def interpolate(self, s):
         s = np.require(s, dtype=self.dtype, requirements=["C", "W"])
+        if s.ndim != 2 or s.shape[0] != self.d:
+            raise ValueError("Expected one line of coordinates per dimension.")
         a = multilinear_interpolation(
             self.smin, self.smax, self.orders, self.values, s)
         return a
-- 
2.43.0


From 0fa7ae4d95e0f5fc8890c6a3b7377ed4527ac946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:52 +0000
Subject: [PATCH 24/26] fix: multilinear extrapolation from the wrong cell very
 far from the grid

---
 geotiepoints/multilinear_cython.pyx | 30 ++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/geotiepoints/multilinear_cython.pyx b/geotiepoints/multilinear_cython.pyx
index c69c624..dc21a08 100644
--- a/geotiepoints/multilinear_cython.pyx
+++ b/geotiepoints/multilinear_cython.pyx
@@ -65,7 +65,7 @@ cdef void multilinear_interpolation_1d(floating[:] smin, floating[:] smax,
             sn_0 = (s_0-smin[0])/(smax[0]-smin[0])
 
             # q_k : index of the interval "containing" s_k
-            q_0 = max( min( <int>(sn_0 *(order_0-1)), (order_0-2) ), 0 )
+            q_0 = max( min( <Py_ssize_t>(sn_0 *(order_0-1)), (order_0-2) ), 0 )
 
             # lam_k : barycentric coordinate in interval k
             lam_0 = sn_0*(order_0-1) - q_0
@@ -106,8 +106,8 @@ cdef void multilinear_interpolation_2d(floating[:] smin, floating[:] smax,
             sn_1 = (s_1-smin[1])/(smax[1]-smin[1])
 
             # q_k : index of the interval "containing" s_k
-            q_0 = max( min( <int>(sn_0 *(order_0-1)), (order_0-2) ), 0 )
-            q_1 = max( min( <int>(sn_1 *(order_1-1)), (order_1-2) ), 0 )
+            q_0 = max( min( <Py_ssize_t>(sn_0 *(order_0-1)), (order_0-2) ), 0 )
+            q_1 = max( min( <Py_ssize_t>(sn_1 *(order_1-1)), (order_1-2) ), 0 )
 
             # lam_k : barycentric coordinate in interval k
             lam_0 = sn_0*(order_0-1) - q_0
@@ -160,9 +160,9 @@ cdef void multilinear_interpolation_3d(floating[:] smin, floating[:] smax,
             sn_2 = (s_2-smin[2])/(smax[2]-smin[2])
 
             # q_k : index of the interval "containing" s_k
-            q_0 = max( min( <int>(sn_0 *(order_0-1)), (order_0-2) ), 0 )
-            q_1 = max( min( <int>(sn_1 *(order_1-1)), (order_1-2) ), 0 )
-            q_2 = max( min( <int>(sn_2 *(order_2-1)), (order_2-2) ), 0 )
+            q_0 = max( min( <Py_ssize_t>(sn_0 *(order_0-1)), (order_0-2) ), 0 )
+            q_1 = max( min( <Py_ssize_t>(sn_1 *(order_1-1)), (order_1-2) ), 0 )
+            q_2 = max( min( <Py_ssize_t>(sn_2 *(order_2-1)), (order_2-2) ), 0 )
 
             # lam_k : barycentric coordinate in interval k
             lam_0 = sn_0*(order_0-1) - q_0
@@ -235,10 +235,10 @@ cdef void multilinear_interpolation_4d(floating[:] smin, floating[:] smax,
             sn_3 = (s_3-smin[3])/(smax[3]-smin[3])
 
             # q_k : index of the interval "containing" s_k
-            q_0 = max( min( <int>(sn_0 *(order_0-1)), (order_0-2) ), 0 )
-            q_1 = max( min( <int>(sn_1 *(order_1-1)), (order_1-2) ), 0 )
-            q_2 = max( min( <int>(sn_2 *(order_2-1)), (order_2-2) ), 0 )
-            q_3 = max( min( <int>(sn_3 *(order_3-1)), (order_3-2) ), 0 )
+            q_0 = max( min( <Py_ssize_t>(sn_0 *(order_0-1)), (order_0-2) ), 0 )
+            q_1 = max( min( <Py_ssize_t>(sn_1 *(order_1-1)), (order_1-2) ), 0 )
+            q_2 = max( min( <Py_ssize_t>(sn_2 *(order_2-1)), (order_2-2) ), 0 )
+            q_3 = max( min( <Py_ssize_t>(sn_3 *(order_3-1)), (order_3-2) ), 0 )
 
             # lam_k : barycentric coordinate in interval k
             lam_0 = sn_0*(order_0-1) - q_0
@@ -341,11 +341,11 @@ cdef void multilinear_interpolation_5d(floating[:] smin, floating[:] smax,
             sn_4 = (s_4-smin[4])/(smax[4]-smin[4])
 
             # q_k : index of the interval "containing" s_k
-            q_0 = max( min( <int>(sn_0 *(order_0-1)), (order_0-2) ), 0 )
-            q_1 = max( min( <int>(sn_1 *(order_1-1)), (order_1-2) ), 0 )
-            q_2 = max( min( <int>(sn_2 *(order_2-1)), (order_2-2) ), 0 )
-            q_3 = max( min( <int>(sn_3 *(order_3-1)), (order_3-2) ), 0 )
-            q_4 = max( min( <int>(sn_4 *(order_4-1)), (order_4-2) ), 0 )
+            q_0 = max( min( <Py_ssize_t>(sn_0 *(order_0-1)), (order_0-2) ), 0 )
+            q_1 = max( min( <Py_ssize_t>(sn_1 *(order_1-1)), (order_1-2) ), 0 )
+            q_2 = max( min( <Py_ssize_t>(sn_2 *(order_2-1)), (order_2-2) ), 0 )
+            q_3 = max( min( <Py_ssize_t>(sn_3 *(order_3-1)), (order_3-2) ), 0 )
+            q_4 = max( min( <Py_ssize_t>(sn_4 *(order_4-1)), (order_4-2) ), 0 )
 
             # lam_k : barycentric coordinate in interval k
             lam_0 = sn_0*(order_0-1) - q_0
-- 
2.43.0


From d463dee851d94c53f30f40e9144c3d5639d0dbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:42 +0000
Subject: [PATCH 25/26] fix: wrong extrapolation of unsigned or short integer
 tie points to the borders

---
 geotiepoints/interpolator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geotiepoints/interpolator.py b/geotiepoints/interpolator.py
index f00183b..be7ec6d 100644
--- a/geotiepoints/interpolator.py
+++ b/geotiepoints/interpolator.py
@@ -48,7 +48,9 @@ def _linear_extrapolate(pos, data, xev):
         raise ValueError("len(pos) and the number of lines of data"
                          " must be 2.")
 
-    return data[1] + ((xev - pos[1]) / (1.0 * (pos[0] - pos[1])) * (data[0] - data[1]))
+    # the differences of integers could wrap around
+    xev, pos, data = 1.0 * xev, [1.0 * p for p in pos], [1.0 * d for d in data]
+    return data[1] + ((xev - pos[1]) / (pos[0] - pos[1]) * (data[0] - data[1]))
 
 
 class Interpolator:
-- 
2.43.0


From edb91f45d34476aa40d55f7b6fec3284e28d9199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:42 +0000
Subject: [PATCH 26/26] fix: interpolate_slices ignoring the steps of the
 slices

---
 geotiepoints/interpolator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotiepoints/interpolator.py b/geotiepoints/interpolator.py
index be7ec6d..7fe560c 100644
--- a/geotiepoints/interpolator.py
+++ b/geotiepoints/interpolator.py
@@ -308,8 +308,8 @@ class AbstractSingleInterpolator(ABC):
         *fine_points* are a tuple of slices for the y and x dimensions
         """
         slice_y, slice_x = fine_points
-        points_y = np.arange(slice_y.start, slice_y.stop)
-        points_x = np.arange(slice_x.start, slice_x.stop)
+        points_y = np.arange(slice_y.start, slice_y.stop, slice_y.step)
+        points_x = np.arange(slice_x.start, slice_x.stop, slice_x.step)
         fine_points = points_y, points_x
 
         return self.interpolate_numpy(fine_points, **interpolator_call_kwargs)
-- 
2.43.0

