From f7097098cf8cff6f2ed253a4fc57f603b978a09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:09 +0000
Subject: [PATCH 01/13] fix: do not use JPEG compression with more bands than
 the driver can store

---
 orthority/common.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/orthority/common.py b/orthority/common.py
index 069506b..b170a40 100644
--- a/orthority/common.py
+++ b/orthority/common.py
@@ -426,7 +426,7 @@ def create_profile(
     configuration.
 
     If ``compress`` is ``None`` (the default), JPEG compression is used with the 'uint8'
-    ``dtype`` and DEFLATE otherwise.  If ``write_mask`` is ``None`` (the default), it is returned
+    ``dtype`` (where the driver supports it for the number of bands), and DEFLATE otherwise.  If ``write_mask`` is ``None`` (the default), it is returned
     as ``True`` when JPEG compression is used, and ``False`` otherwise.  If ``creation_options``
     are supplied, no other creation options are set.
     """
@@ -450,12 +450,20 @@ def create_profile(
 
     # set creation options
     if len(creation_options) == 0:
-        # configure compression
+        # configure compression (JPEG stores up to 4 bands, and the COG driver converts a 4th band
+        # to a mask)
+        max_jpeg_bands = 4 if driver is Driver.gtiff else 3
         if compress is None:
-            compress = Compress.jpeg if dtype == 'uint8' else Compress.deflate
+            jpeg = dtype == 'uint8' and shape[0] <= max_jpeg_bands
+            compress = Compress.jpeg if jpeg else Compress.deflate
         else:
             compress = Compress(compress)
             if compress is Compress.jpeg:
+                if shape[0] > max_jpeg_bands:
+                    raise OrthorityError(
+                        f"JPEG compression is supported for up to {max_jpeg_bands} bands with the "
+                        f"'{driver}' driver."
+                    )
                 if dtype == 'uint16':
                     warnings.warn(
                         'Attempting a 12 bit JPEG ortho configuration.  Support is rasterio build '
-- 
2.43.0


From 6d2ef0958451430d66e10d8e175702273a0ff543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:09 +0000
Subject: [PATCH 02/13] fix: close the file object if opening its dataset fails

---
 orthority/common.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/orthority/common.py b/orthority/common.py
index b170a40..a002a20 100644
--- a/orthority/common.py
+++ b/orthority/common.py
@@ -326,8 +326,11 @@ class OpenRaster:
                         raise
             else:
                 # use fsspec file object
-                file_obj = self._exit_stack.enter_context(ofile)
-                self._dataset = self._exit_stack.enter_context(rio.open(file_obj, mode, **kwargs))
+                with ExitStack() as stack:
+                    file_obj = stack.enter_context(ofile)
+                    self._dataset = stack.enter_context(rio.open(file_obj, mode, **kwargs))
+                    # keep the file & dataset open (they are closed here if opening fails)
+                    self._exit_stack = stack.pop_all()
 
             # store the source filename as a dataset attribute
             self._dataset.filename = get_filename(file)
-- 
2.43.0


From 4add69c8b88d833bef1e82c7172a20e7f0f5f87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:09 +0000
Subject: [PATCH 03/13] fix: make suppression of the not-georeferenced warning
 thread-safe

---
 orthority/common.py | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/orthority/common.py b/orthority/common.py
index a002a20..49256f3 100644
--- a/orthority/common.py
+++ b/orthority/common.py
@@ -22,6 +22,7 @@ import logging
 import os
 import posixpath
 import pstats
+import threading
 import tracemalloc
 import warnings
 from collections.abc import Generator, Sequence
@@ -68,15 +69,31 @@ _default_out_config = dict(
 """Default configuration values for output images."""
 
 
+_no_georef_lock = threading.Lock()
+_no_georef_stack = ExitStack()
+_no_georef_count = 0
+
+
 @contextmanager
 def suppress_no_georef():
     """Context manager to suppress rasterio's NotGeoreferencedWarning."""
-    # TODO: warnings.catch_warnings is not thread-safe and warnings.simplefilter should rather be
-    #  called once in cli.  consider what this does to API doc examples though - perhaps it can
-    #  go in __init__.py.
-    with warnings.catch_warnings():
-        warnings.simplefilter('ignore', category=NotGeoreferencedWarning)
+    # TODO: warnings.simplefilter should rather be called once in cli.  consider what this does to
+    #  API doc examples though - perhaps it can go in __init__.py.
+    # warnings.catch_warnings is not thread-safe, so overlapping contexts (in any thread) share one
+    # instance, entered by the first and exited by the last
+    global _no_georef_count
+    with _no_georef_lock:
+        if _no_georef_count == 0:
+            _no_georef_stack.enter_context(warnings.catch_warnings())
+            warnings.simplefilter('ignore', category=NotGeoreferencedWarning)
+        _no_georef_count += 1
+    try:
         yield
+    finally:
+        with _no_georef_lock:
+            _no_georef_count -= 1
+            if _no_georef_count == 0:
+                _no_georef_stack.close()
 
 
 def expand_window_to_grid(win: Window, expand_pixels: tuple[int, int] = (0, 0)) -> Window:
-- 
2.43.0


From 30754fdaccd32c79a47fa15fbd4c5c6a9e28d9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:09 +0000
Subject: [PATCH 04/13] fix: overwrite existing files that are damaged or
 partially written

---
 orthority/common.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/orthority/common.py b/orthority/common.py
index 49256f3..c75627f 100644
--- a/orthority/common.py
+++ b/orthority/common.py
@@ -324,13 +324,13 @@ class OpenRaster:
 
             # TODO: delete sidecar files if overwriting (note that DatasetReader has a files
             #  attribute that lists associated files)
-            # TODO: if a file is partially written (e.g. because of an error), rasterio fails when
-            #  overwriting it
             if not overwrite and 'w' in mode and ofile.fs.exists(ofile.path):
                 raise FileExistsError(f"File exists: '{ofile.path}'")
 
             if isinstance(ofile.fs, (LocalFileSystem, HTTPFileSystem)):
                 # use GDAL internal file system
+                if mode == 'w':
+                    self._remove_damaged(ofile)
                 try:
                     self._dataset = self._exit_stack.enter_context(
                         rio.open(ofile.path, mode, **kwargs)
@@ -355,6 +355,18 @@ class OpenRaster:
         else:
             raise TypeError(f"Unsupported 'file' type: {type(file)}")
 
+    @staticmethod
+    def _remove_damaged(ofile: OpenFile):
+        """Delete an existing local file that can't be opened as a dataset (e.g. it was partially
+        written because of an error), as Rasterio fails when overwriting it.
+        """
+        if isinstance(ofile.fs, LocalFileSystem) and ofile.fs.isfile(ofile.path):
+            try:
+                with suppress_no_georef(), rio.open(ofile.path, 'r'):
+                    pass
+            except RasterioIOError:
+                ofile.fs.rm_file(ofile.path)
+
     def __enter__(self) -> rio.DatasetReader | DatasetWriter:
         if self._dataset.closed:
             raise OSError('Dataset is closed.')
-- 
2.43.0


From f394dd7a4d0713698e48e83d39b2cca2d09e0d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:10 +0000
Subject: [PATCH 05/13] fix: return independent cameras from FrameCameras.get()

---
 orthority/factory.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/orthority/factory.py b/orthority/factory.py
index 6eb9fa6..163fbac 100644
--- a/orthority/factory.py
+++ b/orthority/factory.py
@@ -16,6 +16,7 @@
 """Factories for creating camera models from parameter files and dictionaries."""
 from __future__ import annotations
 
+import copy
 import warnings
 from abc import ABC, abstractmethod
 from os import PathLike
@@ -228,10 +229,12 @@ class FrameCameras(Cameras):
         if cam_id not in self._cameras:
             self._cameras[cam_id] = create_camera(**int_param, **self._cam_kwargs)
 
-        # update exterior params
-        self._cameras[cam_id].update(xyz=ext_param['xyz'], opk=ext_param['opk'])
+        # copy the camera so that those returned previously are unaffected, and update its
+        # exterior params
+        camera = copy.copy(self._cameras[cam_id])
+        camera.update(xyz=ext_param['xyz'], opk=ext_param['opk'])
 
-        return self._cameras[cam_id]
+        return camera
 
     def write_param(self, out_dir: str | PathLike | OpenFile, overwrite: bool = False):
         # write interior params
-- 
2.43.0


From 106e2613ee25be05d9489ba87696a32af154d6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:10 +0000
Subject: [PATCH 06/13] fix: leave the caller's io_kwargs unchanged in
 FrameCameras.from_images()

---
 orthority/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orthority/factory.py b/orthority/factory.py
index 163fbac..ccee461 100644
--- a/orthority/factory.py
+++ b/orthority/factory.py
@@ -136,7 +136,7 @@ class FrameCameras(Cameras):
         reader = param_io.ExifReader(files, **io_kwargs)
         int_param_dict = reader.read_int_param()
         ext_param_dict = reader.read_ext_param()
-        io_kwargs.update(crs=reader.crs)
+        io_kwargs = dict(io_kwargs, crs=reader.crs)
         return cls(int_param_dict, ext_param_dict, io_kwargs=io_kwargs, cam_kwargs=cam_kwargs)
 
     @property
-- 
2.43.0


From fd56e61477a0df30550e63ee1930178ea050cbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:10 +0000
Subject: [PATCH 07/13] fix: leave the caller's parameters unchanged and
 refresh all cameras in RpcCameras.refine()

---
 orthority/factory.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/orthority/factory.py b/orthority/factory.py
index ccee461..4d82ed0 100644
--- a/orthority/factory.py
+++ b/orthority/factory.py
@@ -272,7 +272,7 @@ class RpcCameras(Cameras):
         if not isinstance(rpc_param, dict):
             self._rpc_param_dict = param_io.read_oty_rpc_param(rpc_param)
         else:
-            self._rpc_param_dict = rpc_param
+            self._rpc_param_dict = dict(rpc_param)
 
         self._cam_kwargs = cam_kwargs or {}
         self._cameras = {}
@@ -352,13 +352,15 @@ class RpcCameras(Cameras):
             self._gcp_dict = gcps
 
         # refine RPC parameters with GCPs
-        for filename, rpc_param in self._rpc_param_dict.items():
-            filename = Path(filename)
+        for key, rpc_param in self._rpc_param_dict.items():
+            filename = Path(key)
             gcps = self._gcp_dict.get(filename.name, self._gcp_dict.get(filename.stem, None))
 
             if gcps:
-                self._cameras.pop(filename.name, None)  # force camera recreation
-                rpc_param['rpc'] = refine_rpc(rpc_param['rpc'], gcps, **(fit_kwargs or {}))
+                self._cameras.pop(key, None)  # force camera recreation
+                # (replaces rather than changes rpc_param, which could belong to the caller)
+                rpc = refine_rpc(rpc_param['rpc'], gcps, **(fit_kwargs or {}))
+                self._rpc_param_dict[key] = dict(rpc_param, rpc=rpc)
             else:
                 warnings.warn(
                     f"Could not find any GCPs for '{filename}'.", category=OrthorityWarning
@@ -367,16 +369,15 @@ class RpcCameras(Cameras):
     def get(self, filename: str | PathLike | OpenFile | rio.DatasetReader) -> RpcCamera:
         # get RPC params for filename
         filename = Path(common.get_filename(filename))
-        rpc_param = self._rpc_param_dict.get(
-            filename.name, self._rpc_param_dict.get(filename.stem, None)
-        )
+        key = filename.name if self._rpc_param_dict.get(filename.name) else filename.stem
+        rpc_param = self._rpc_param_dict.get(key, None)
         if not rpc_param:
             raise ParamError(f"Could not find RPC parameters for '{filename.name}'.")
 
-        if filename.name not in self._cameras:
-            self._cameras[filename.name] = create_camera(**rpc_param, **self._cam_kwargs)
+        if key not in self._cameras:
+            self._cameras[key] = create_camera(**rpc_param, **self._cam_kwargs)
 
-        return self._cameras[filename.name]
+        return self._cameras[key]
 
     def write_param(self, out_dir: str | PathLike | OpenFile, overwrite: bool = False):
         """
-- 
2.43.0


From 9fc9f100acd358d9755f96be7ed0546f6e92f663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:09 +0000
Subject: [PATCH 08/13] fix: do not use the first source image's CRS for other
 source images

---
 orthority/cli.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/orthority/cli.py b/orthority/cli.py
index 946c327..529c36e 100644
--- a/orthority/cli.py
+++ b/orthority/cli.py
@@ -353,8 +353,8 @@ def _ortho(
 
             with src_ctx as src_im:
                 # finalise and validate world / ortho crs
-                crs = crs or src_im.crs
-                if not crs:
+                ortho_crs = crs or src_im.crs
+                if not ortho_crs:
                     raise click.MissingParameter(param_hint="'-c' / '--crs'", param_type='option')
 
                 # orthorectify
@@ -366,7 +366,7 @@ def _ortho(
                     out_dir, f'{src_file_path.stem}_ORTHO.tif', mode='wb'
                 )
                 try:
-                    ortho = Ortho(src_im, dem_im, camera, crs, dem_band=dem_band)
+                    ortho = Ortho(src_im, dem_im, camera, ortho_crs, dem_band=dem_band)
                     ortho.process(ortho_ofile, overwrite=overwrite, progress=tqdm_kwargs, **kwargs)
                 except (FileExistsError, OrthorityError) as ex:
                     raise click.UsageError(str(ex))
-- 
2.43.0


From 659ea03f2c46e15dd517c1a0d7ccf0cf18a62938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:09 +0000
Subject: [PATCH 09/13] fix: do not read a dataset that is both pan and MS
 concurrently

---
 orthority/pan_sharp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/orthority/pan_sharp.py b/orthority/pan_sharp.py
index acd387b..77134f3 100644
--- a/orthority/pan_sharp.py
+++ b/orthority/pan_sharp.py
@@ -75,7 +75,8 @@ class PanSharpen:
         self._ms_file = ms_file
         self._profiles = self._get_vrt_profiles(pan_file, ms_file)
         self._pan_lock = Lock()
-        self._ms_lock = Lock()
+        # share the lock if pan & MS are the same dataset, which can't be read concurrently
+        self._ms_lock = self._pan_lock if ms_file is pan_file else Lock()
         self._out_lock = Lock()
 
     @staticmethod
-- 
2.43.0


From eacef428d1bcebd3eddab96774b1762c813b380e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:47 +0000
Subject: [PATCH 10/13] fix: avoid dividing by rounding error in Gram-Schmidt
 coefficients with zero weights

---
 orthority/pan_sharp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/orthority/pan_sharp.py b/orthority/pan_sharp.py
index 77134f3..4efdb87 100644
--- a/orthority/pan_sharp.py
+++ b/orthority/pan_sharp.py
@@ -374,8 +374,10 @@ class PanSharpen:
                 for l in range(k + 1):
                     num = a[l].dot(cov[k])
                     den = (a[l].reshape(-1, 1).dot(a[l].reshape(1, -1)) * cov).sum()
-                    # the 'if' below avoids dividing by zero with canonical weight vectors
-                    coeffs[k][l] = num / den if np.any(a[l] != 0) else 0
+                    # the 'if' below avoids dividing by zero, or rounding error, when component l
+                    # is a linear combination of the others (e.g. with zero weights)
+                    min_den = 1e-10 * cov[l - 1, l - 1] if l > 0 else 0
+                    coeffs[k][l] = num / den if den > min_den else 0
 
             return coeffs
 
-- 
2.43.0


From 617c224600d6466d69f8d3d3193f4d622a94b051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:26 +0000
Subject: [PATCH 11/13] fix: read integer values in Orthority RPC parameter
 files

---
 orthority/param_io.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/orthority/param_io.py b/orthority/param_io.py
index 7c1497a..f200567 100644
--- a/orthority/param_io.py
+++ b/orthority/param_io.py
@@ -415,18 +415,18 @@ def read_oty_rpc_param(file: str | PathLike | OpenFile | IO[str]) -> dict[str, d
         str: dict(
             im_size=[(float, int)] * 2,
             rpc=dict(
-                height_off=float,
-                height_scale=float,
-                lat_off=float,
-                lat_scale=float,
-                line_den_coeff=[float] * 20,
-                line_num_coeff=[float] * 20,
+                height_off=(int, float),
+                height_scale=(int, float),
+                lat_off=(int, float),
+                lat_scale=(int, float),
+                line_den_coeff=[(int, float)] * 20,
+                line_num_coeff=[(int, float)] * 20,
                 line_off=(int, float),
                 line_scale=(int, float),
-                long_off=float,
-                long_scale=float,
-                samp_den_coeff=[float] * 20,
-                samp_num_coeff=[float] * 20,
+                long_off=(int, float),
+                long_scale=(int, float),
+                samp_den_coeff=[(int, float)] * 20,
+                samp_num_coeff=[(int, float)] * 20,
                 samp_off=(int, float),
                 samp_scale=(int, float),
             ),
-- 
2.43.0


From f6a276c7b099fc82e3a2ec1f7c9fff2a7c51e4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:26 +0000
Subject: [PATCH 12/13] fix: read Orthority interior parameter files with a
 'camera' camera ID

---
 orthority/param_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orthority/param_io.py b/orthority/param_io.py
index f200567..3e6a9f4 100644
--- a/orthority/param_io.py
+++ b/orthority/param_io.py
@@ -250,8 +250,8 @@ def read_oty_int_param(file: str | PathLike | OpenFile | IO[str]) -> dict[str, d
         int_param.update(**yaml_param)
         return int_param
 
-    # warn if in original simple-ortho format
-    if 'camera' in yaml_dict:
+    # warn if in original simple-ortho format (not if in Orthority format with a 'camera' camera ID)
+    if 'camera' in yaml_dict and ('name' in yaml_dict['camera'] or 'ortho' in yaml_dict):
         warnings.warn(
             "Support for the 'config.yaml' format is deprecated and will be removed in future. "
             "Please switch to the Orthority interior parameter format.",
-- 
2.43.0


From 7ff35d6865faf4a9f4f50ea4b5c86f1e92fd4e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:11 +0000
Subject: [PATCH 13/13] fix: write legacy orthos to the directory of each
 source image

---
 orthority/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orthority/cli.py b/orthority/cli.py
index 529c36e..a6ea0a9 100644
--- a/orthority/cli.py
+++ b/orthority/cli.py
@@ -1340,8 +1340,8 @@ def _simple_ortho(
                 xyz = np.array((im_pos_ori['x'], im_pos_ori['y'], im_pos_ori['z']))
 
                 # set ortho filename
-                ortho_dir = src_filename.parent if not ortho_dir else ortho_dir
-                ortho_filename = Path(ortho_dir).joinpath(src_filename.stem + '_ORTHO.tif')
+                out_dir = Path(ortho_dir) if ortho_dir else src_filename.parent
+                ortho_filename = out_dir.joinpath(src_filename.stem + '_ORTHO.tif')
 
                 # Get src size
                 with common.suppress_no_georef(), rio.open(src_filename) as src_im:
-- 
2.43.0

