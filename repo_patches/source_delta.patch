From c1319f60279f05fc70aced5c362ff1dc0fc3b270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:58 +0000
Subject: [PATCH 01/16] fix: close hdf files when a loader fails

A refused key, a wrong rank or a read error left the file open for as long
as the exception was alive, so the same path could not be saved again.
---
 discorpy/losa/loadersaver.py | 75 ++++++++++++++++++++++++------------
 1 file changed, 51 insertions(+), 24 deletions(-)

diff --git a/discorpy/losa/loadersaver.py b/discorpy/losa/loadersaver.py
index 21c70a5..64c4ce4 100644
--- a/discorpy/losa/loadersaver.py
+++ b/discorpy/losa/loadersaver.py
@@ -126,7 +126,23 @@ def get_hdf_information(file_path, display=False):
     list_type : str
         Types of the datasets.
     """
-    hdf_object = h5py.File(__get_path(file_path), 'r')
+    with h5py.File(__get_path(file_path), 'r') as hdf_object:
+        list_key, list_shape, list_type = _read_hdf_information(
+            hdf_object)
+    if display:
+        if list_key:
+            for i, key in enumerate(list_key):
+                print(key + " : " + str(list_shape[i]) + " : " + str(
+                    list_type[i]))
+        else:
+            print("Empty file !!!")
+    return list_key, list_shape, list_type
+
+
+def _read_hdf_information(hdf_object):
+    """
+    Supplementary method for getting information from an opened hdf/nxs file.
+    """
     keys = []
     hdf_object.visit(keys.append)
     list_key, list_shape, list_type = [], [], []
@@ -157,14 +173,6 @@ def get_hdf_information(file_path, display=False):
             list_shape.append(shape)
             list_type.append(dtype)
             pass
-    hdf_object.close()
-    if display:
-        if list_key:
-            for i, key in enumerate(list_key):
-                print(key + " : " + str(list_shape[i]) + " : " + str(
-                    list_type[i]))
-        else:
-            print("Empty file !!!")
     return list_key, list_shape, list_type
 
 
@@ -190,7 +198,24 @@ def find_hdf_key(file_path, pattern, display=False):
     list_type : str
         Types of the datasets.
     """
-    hdf_object = h5py.File(__get_path(file_path), 'r')
+    with h5py.File(__get_path(file_path), 'r') as hdf_object:
+        list_dkey, list_dshape, list_dtype = _search_hdf_key(
+            hdf_object, pattern)
+    if display:
+        if list_dkey:
+            for i, key in enumerate(list_dkey):
+                print(key + " : " + str(list_dshape[i]) + " : " + str(
+                    list_dtype[i]))
+        else:
+            print("Can't find datasets with keys matching the "
+                  "pattern: {}".format(pattern))
+    return list_dkey, list_dshape, list_dtype
+
+
+def _search_hdf_key(hdf_object, pattern):
+    """
+    Supplementary method for getting information from an opened hdf/nxs file.
+    """
     list_key, keys = [], []
     hdf_object.visit(keys.append)
     for key in keys:
@@ -222,15 +247,6 @@ def find_hdf_key(file_path, pattern, display=False):
                 list_dtype.append(dtype)
                 list_dshape.append(shape)
                 pass
-    hdf_object.close()
-    if display:
-        if list_dkey:
-            for i, key in enumerate(list_dkey):
-                print(key + " : " + str(list_dshape[i]) + " : " + str(
-                    list_dtype[i]))
-        else:
-            print("Can't find datasets with keys matching the "
-                  "pattern: {}".format(pattern))
     return list_dkey, list_dshape, list_dtype
 
 
@@ -266,11 +282,19 @@ def load_hdf_file(file_path, key_path=None, index=None, axis=0):
     array_like
         2D array or 3D array.
     """
-    mat = None
     try:
         ifile = h5py.File(__get_path(file_path), 'r')
     except Exception as error:
         raise ValueError(f"Error: {error}")
+    with ifile:
+        return _read_hdf_data(ifile, key_path, index, axis)
+
+
+def _read_hdf_data(ifile, key_path, index, axis):
+    """
+    Supplementary method for reading data from an opened hdf/nxs file.
+    """
+    mat = None
     if key_path is None:
         key_path = ifile.visititems(_get_key)  # Find the key automatically
         if key_path is None:
@@ -349,10 +373,13 @@ def load_hdf_object(file_path, key_path):
         ifile = h5py.File(__get_path(file_path), 'r')
     except Exception as error:
         raise ValueError(f"Error: {error}")
-    check = key_path in ifile
-    if not check:
-        raise ValueError(f"Couldn't open object with the key: {key_path}")
-    return ifile[key_path]
+    try:
+        if key_path not in ifile:
+            raise ValueError(f"Couldn't open object with the key: {key_path}")
+        return ifile[key_path]
+    except BaseException:
+        ifile.close()
+        raise
 
 
 def _create_folder(file_path):
-- 
2.43.0


From c0ac637f75ef5930d7abed6d10bd0b582b50501e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:39 +0000
Subject: [PATCH 02/16] fix: leave Matplotlib's settings and figures as they
 were after a plot

save_residual_plot reset the user's rcParams to the defaults, or left its own
settings behind when it failed; every plot saver leaked its figure on failure.
---
 discorpy/losa/loadersaver.py | 78 ++++++++++++++++++++++++++----------
 1 file changed, 56 insertions(+), 22 deletions(-)

diff --git a/discorpy/losa/loadersaver.py b/discorpy/losa/loadersaver.py
index 64c4ce4..32312ab 100644
--- a/discorpy/losa/loadersaver.py
+++ b/discorpy/losa/loadersaver.py
@@ -35,6 +35,7 @@ Module for I/O tasks:
 import json
 import pickle
 import platform
+from contextlib import contextmanager
 from pathlib import Path
 import h5py
 import numpy as np
@@ -477,6 +478,20 @@ def save_image(file_path, mat, overwrite=True):
     return file_path
 
 
+@contextmanager
+def _temporary_figure():
+    """
+    Provide a figure for a plot. The figure is closed and the settings of
+    Matplotlib are restored whether the plot is saved or not.
+    """
+    with plt.rc_context():
+        fig = plt.figure(frameon=False)
+        try:
+            yield fig
+        finally:
+            plt.close(fig)
+
+
 def save_plot_image(file_path, list_lines, height, width, overwrite=True,
                     dpi=100):
     """
@@ -507,7 +522,20 @@ def save_plot_image(file_path, list_lines, height, width, overwrite=True,
     _create_folder(file_path)
     if not overwrite:
         file_path = _create_file_name(file_path)
-    fig = plt.figure(frameon=False)
+    with _temporary_figure() as fig:
+        _plot_lines(fig, list_lines, height, width, dpi)
+        try:
+            plt.savefig(file_path, dpi=dpi)
+        except Exception as error:
+            raise ValueError(
+                f"Couldn't write to file: {file_path}. Error {error}")
+    return file_path
+
+
+def _plot_lines(fig, list_lines, height, width, dpi):
+    """
+    Supplementary method for plotting points of each line.
+    """
     fig.set_size_inches(width / dpi, height / dpi)
     ax = plt.Axes(fig, [0., 0., 1.0, 1.0])
     ax.set_axis_off()
@@ -516,12 +544,6 @@ def save_plot_image(file_path, list_lines, height, width, overwrite=True,
     m_size = 0.5 * min(height / dpi, width / dpi)
     for line in list_lines:
         plt.plot(line[:, 1], height - line[:, 0], '-o', markersize=m_size)
-    try:
-        plt.savefig(file_path, dpi=dpi)
-    except Exception as error:
-        raise ValueError(f"Couldn't write to file: {file_path}. Error {error}")
-    plt.close()
-    return file_path
 
 
 def __check_font(font_family):
@@ -577,7 +599,20 @@ def save_residual_plot(file_path, list_data, height, width, overwrite=True,
     _create_folder(file_path)
     if not overwrite:
         file_path = _create_file_name(file_path)
-    fig = plt.figure(frameon=False)
+    with _temporary_figure() as fig:
+        _plot_residual(fig, list_data, height, width, dpi, font_family)
+        try:
+            plt.savefig(file_path, dpi=dpi, bbox_inches='tight')
+        except Exception as error:
+            raise ValueError(
+                f"Couldn't write to file: {file_path}. Error {error}")
+    return file_path
+
+
+def _plot_residual(fig, list_data, height, width, dpi, font_family):
+    """
+    Supplementary method for plotting residual against radius.
+    """
     fig.set_size_inches(width / dpi, height / dpi)
     m_size = 0.5 * min(height / dpi, width / dpi)
     plt.rc('font', size=np.int16(m_size * 4))
@@ -587,13 +622,6 @@ def save_residual_plot(file_path, list_data, height, width, overwrite=True,
     plt.xlabel('Radius', fontweight='bold')
     plt.ylabel('Residual', fontweight='bold')
     plt.plot(list_data[:, 0], list_data[:, 1], '.', markersize=m_size)
-    try:
-        plt.savefig(file_path, dpi=dpi, bbox_inches='tight')
-    except Exception as error:
-        raise ValueError(f"Couldn't write to file: {file_path}. Error {error}")
-    plt.close()
-    plt.rcParams.update(plt.rcParamsDefault)
-    return file_path
 
 
 def save_hdf_file(file_path, idata, key_path='entry', overwrite=True):
@@ -719,7 +747,19 @@ def save_plot_points(file_path, list_points, height, width, overwrite=True,
     _create_folder(str(file_path))
     if not overwrite:
         file_path = _create_file_name(str(file_path))
-    fig = plt.figure(frameon=False)
+    with _temporary_figure() as fig:
+        _plot_points(fig, list_points, height, width, dpi, marker, color)
+        try:
+            plt.savefig(file_path, dpi=dpi)
+        except IOError:
+            raise ValueError("Couldn't write to file {}".format(file_path))
+    return file_path
+
+
+def _plot_points(fig, list_points, height, width, dpi, marker, color):
+    """
+    Supplementary method for plotting points.
+    """
     fig.set_size_inches(width / dpi, height / dpi)
     ax = plt.Axes(fig, [0., 0., 1.0, 1.0])
     ax.set_axis_off()
@@ -729,12 +769,6 @@ def save_plot_points(file_path, list_points, height, width, overwrite=True,
     for point in list_points:
         plt.plot(point[1], height - point[0], marker, color=color,
                  markersize=m_size)
-    try:
-        plt.savefig(file_path, dpi=dpi)
-    except IOError:
-        raise ValueError("Couldn't write to file {}".format(file_path))
-    plt.close()
-    return file_path
 
 
 def save_metadata_txt(file_path, xcenter, ycenter, list_fact, overwrite=True):
-- 
2.43.0


From 6c27d5035a63bfb4a21bc04082e3673dd06ce778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:05 +0000
Subject: [PATCH 03/16] fix: give each overwrite=False saver a name of its own

The name was chosen by looking for a free one and only used later, so two
savers running at the same time could be given the same name and one of them
overwrote the other. The name is now taken when it is chosen, right before the
data are written.
---
 discorpy/losa/loadersaver.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/discorpy/losa/loadersaver.py b/discorpy/losa/loadersaver.py
index 32312ab..5cfd1cc 100644
--- a/discorpy/losa/loadersaver.py
+++ b/discorpy/losa/loadersaver.py
@@ -422,17 +422,17 @@ def _create_file_name(file_path):
     file_base = file_path.stem
     file_ext = file_path.suffix
     parent_dir = file_path.parent
-    if file_path.exists():
-        nfile = 0
-        while True:
+    nfile = 0
+    while True:
+        try:
+            # Reserve the name, so that no one else is given the same one
+            file_path.touch(exist_ok=False)
+            break
+        except FileExistsError:
             name_add = f"_{nfile:04d}"
             new_file_name = f"{file_base}{name_add}{file_ext}"
-            new_file_path = parent_dir / new_file_name
-            if new_file_path.exists():
-                nfile += 1
-            else:
-                file_path = new_file_path
-                break
+            file_path = parent_dir / new_file_name
+            nfile += 1
     return str(file_path)
 
 
@@ -468,9 +468,9 @@ def save_image(file_path, mat, overwrite=True):
             axis_m = np.argmin(mat.shape)
             mat = np.mean(mat, axis=axis_m)
     _create_folder(str(file_path))
+    image = Image.fromarray(mat)
     if not overwrite:
         file_path = _create_file_name(str(file_path))
-    image = Image.fromarray(mat)
     try:
         image.save(file_path)
     except Exception as error:
@@ -520,10 +520,10 @@ def save_plot_image(file_path, list_lines, height, width, overwrite=True,
     """
     file_path = str(__get_path(file_path, check_exist=False))
     _create_folder(file_path)
-    if not overwrite:
-        file_path = _create_file_name(file_path)
     with _temporary_figure() as fig:
         _plot_lines(fig, list_lines, height, width, dpi)
+        if not overwrite:
+            file_path = _create_file_name(file_path)
         try:
             plt.savefig(file_path, dpi=dpi)
         except Exception as error:
@@ -597,10 +597,10 @@ def save_residual_plot(file_path, list_data, height, width, overwrite=True,
     """
     file_path = str(__get_path(file_path, check_exist=False))
     _create_folder(file_path)
-    if not overwrite:
-        file_path = _create_file_name(file_path)
     with _temporary_figure() as fig:
         _plot_residual(fig, list_data, height, width, dpi, font_family)
+        if not overwrite:
+            file_path = _create_file_name(file_path)
         try:
             plt.savefig(file_path, dpi=dpi, bbox_inches='tight')
         except Exception as error:
@@ -745,10 +745,10 @@ def save_plot_points(file_path, list_points, height, width, overwrite=True,
     """
     file_path = __get_path(file_path, check_exist=False).resolve()
     _create_folder(str(file_path))
-    if not overwrite:
-        file_path = _create_file_name(str(file_path))
     with _temporary_figure() as fig:
         _plot_points(fig, list_points, height, width, dpi, marker, color)
+        if not overwrite:
+            file_path = _create_file_name(str(file_path))
         try:
             plt.savefig(file_path, dpi=dpi)
         except IOError:
-- 
2.43.0


From 16683bdcd33228e9a6287c9fb7e25cf63f282721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:31 +0000
Subject: [PATCH 04/16] fix: return the file that is written for a plot path
 without extension

Matplotlib adds the extension after the name has been checked: a folder was
created under the given name, the returned path was not the file, and an
existing file could be overwritten with overwrite=False.
---
 discorpy/losa/loadersaver.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/discorpy/losa/loadersaver.py b/discorpy/losa/loadersaver.py
index 5cfd1cc..a8d1c00 100644
--- a/discorpy/losa/loadersaver.py
+++ b/discorpy/losa/loadersaver.py
@@ -478,6 +478,16 @@ def save_image(file_path, mat, overwrite=True):
     return file_path
 
 
+def _add_plot_extension(file_path):
+    """
+    Add the extension used by Matplotlib if a file path has none.
+    """
+    if not file_path.suffix:
+        file_ext = plt.rcParams['savefig.format']
+        file_path = file_path.with_name(f"{file_path.name}.{file_ext}")
+    return file_path
+
+
 @contextmanager
 def _temporary_figure():
     """
@@ -518,7 +528,8 @@ def save_plot_image(file_path, list_lines, height, width, overwrite=True,
     str
         Updated file path.
     """
-    file_path = str(__get_path(file_path, check_exist=False))
+    file_path = str(_add_plot_extension(
+        __get_path(file_path, check_exist=False)))
     _create_folder(file_path)
     with _temporary_figure() as fig:
         _plot_lines(fig, list_lines, height, width, dpi)
@@ -595,7 +606,8 @@ def save_residual_plot(file_path, list_data, height, width, overwrite=True,
     str
         Updated file path.
     """
-    file_path = str(__get_path(file_path, check_exist=False))
+    file_path = str(_add_plot_extension(
+        __get_path(file_path, check_exist=False)))
     _create_folder(file_path)
     with _temporary_figure() as fig:
         _plot_residual(fig, list_data, height, width, dpi, font_family)
@@ -744,6 +756,7 @@ def save_plot_points(file_path, list_points, height, width, overwrite=True,
         Updated file path.
     """
     file_path = __get_path(file_path, check_exist=False).resolve()
+    file_path = _add_plot_extension(file_path)
     _create_folder(str(file_path))
     with _temporary_figure() as fig:
         _plot_points(fig, list_points, height, width, dpi, marker, color)
-- 
2.43.0


From ab1f9be0827bb3e3bfe14c5b48bb843f9579e3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:52 +0000
Subject: [PATCH 05/16] fix: replace metadata and list files in one step

The target was truncated first: values that can't be serialised, a full disk
or a killed process destroyed the previous coefficients, and a cut text file
loads as fewer or different coefficients without any error.
---
 discorpy/losa/loadersaver.py | 49 +++++++++++++++++++++++++++---------
 1 file changed, 37 insertions(+), 12 deletions(-)

diff --git a/discorpy/losa/loadersaver.py b/discorpy/losa/loadersaver.py
index a8d1c00..4fe47f1 100644
--- a/discorpy/losa/loadersaver.py
+++ b/discorpy/losa/loadersaver.py
@@ -33,8 +33,10 @@ Module for I/O tasks:
 """
 
 import json
+import os
 import pickle
 import platform
+import uuid
 from contextlib import contextmanager
 from pathlib import Path
 import h5py
@@ -436,6 +438,29 @@ def _create_file_name(file_path):
     return str(file_path)
 
 
+def _write_file(file_path, content):
+    """
+    Write bytes to a file in one step: the file holds either its previous
+    content or all of the new one if writing is interrupted.
+
+    Parameters
+    ----------
+    file_path : str
+        Path to a file
+    content : bytes
+        Content of the file.
+    """
+    file_path = Path(file_path).resolve()
+    tmp_path = file_path.with_name(f".{uuid.uuid4().hex}.tmp")
+    try:
+        with open(tmp_path, "wb") as f:
+            f.write(content)
+        os.replace(tmp_path, file_path)
+    except BaseException:
+        tmp_path.unlink(missing_ok=True)
+        raise
+
+
 def save_image(file_path, mat, overwrite=True):
     """
     Save 2D data to an image.
@@ -810,18 +835,18 @@ def save_metadata_txt(file_path, xcenter, ycenter, list_fact, overwrite=True):
     if file_path.suffix.lower() not in {'.txt', '.dat'}:
         file_path = file_path.with_suffix('.txt')
     _create_folder(str(file_path))
-    if not overwrite:
-        file_path = _create_file_name(str(file_path))
     metadata = OrderedDict()
     metadata['xcenter'] = xcenter
     metadata['ycenter'] = ycenter
     for i, fact in enumerate(list_fact):
         kname = 'factor' + str(i)
         metadata[kname] = fact
-    with open(file_path, "w") as f:
-        for line in metadata:
-            f.write(str(line) + " = " + str(metadata[line]))
-            f.write('\n')
+    content = ""
+    for line in metadata:
+        content += str(line) + " = " + str(metadata[line]) + os.linesep
+    if not overwrite:
+        file_path = _create_file_name(str(file_path))
+    _write_file(file_path, content.encode())
     return file_path
 
 
@@ -888,15 +913,15 @@ def save_metadata_json(file_path, xcenter, ycenter, list_fact, overwrite=True):
     if file_path.suffix.lower() != '.json':
         file_path = file_path.with_suffix('.json')
     _create_folder(str(file_path))
-    if not overwrite:
-        file_path = _create_file_name(str(file_path))
     metadata = {
         'xcenter': float(xcenter),
         'ycenter': float(ycenter),
         'list_fact': list_fact
     }
-    with open(file_path, "w") as f:
-        json.dump(metadata, f, indent=4, default=__numpy_encoder)
+    content = json.dumps(metadata, indent=4, default=__numpy_encoder)
+    if not overwrite:
+        file_path = _create_file_name(str(file_path))
+    _write_file(file_path, content.encode())
     return file_path
 
 
@@ -963,10 +988,10 @@ def save_python_list(file_path, python_list, overwrite=True):
     if file_path.suffix.lower() != '.pkl':
         file_path = file_path.with_suffix('.pkl')
     _create_folder(str(file_path))
+    content = pickle.dumps(python_list)
     if not overwrite:
         file_path = _create_file_name(str(file_path))
-    with open(file_path, 'wb') as f:
-        pickle.dump(python_list, f)
+    _write_file(file_path, content)
     return file_path
 
 
-- 
2.43.0


From 8400c53ec026b56e6d06e8e60596b9f185347ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:17 +0000
Subject: [PATCH 06/16] fix: don't report an incomplete image or plot file as
 saved

Pillow ignores a short write (e.g. on a nearly full disk) when it encodes a
tif, jpg or bmp image straight to a file: the file was cut and the saver
returned as if it was complete.
---
 discorpy/losa/loadersaver.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/discorpy/losa/loadersaver.py b/discorpy/losa/loadersaver.py
index 4fe47f1..3a7c149 100644
--- a/discorpy/losa/loadersaver.py
+++ b/discorpy/losa/loadersaver.py
@@ -32,6 +32,7 @@ Module for I/O tasks:
 
 """
 
+import io
 import json
 import os
 import pickle
@@ -481,6 +482,10 @@ def save_image(file_path, mat, overwrite=True):
     """
     file_path = __get_path(file_path, check_exist=False).resolve()
     file_ext = file_path.suffix
+    file_format = Image.registered_extensions().get(file_ext.lower())
+    if file_format is None:
+        raise ValueError(f"Couldn't write to file: {file_path}. "
+                         f"Unknown file extension: {file_ext}")
     if not ((file_ext == ".tif") or (file_ext == ".tiff")):
         if mat.dtype != np.uint8:
             nmin, nmax = np.min(mat), np.max(mat)
@@ -497,7 +502,10 @@ def save_image(file_path, mat, overwrite=True):
     if not overwrite:
         file_path = _create_file_name(str(file_path))
     try:
-        image.save(file_path)
+        # Pillow doesn't report an incomplete write to a file on disk
+        content = io.BytesIO()
+        image.save(content, format=file_format)
+        _write_file(file_path, content.getvalue())
     except Exception as error:
         raise ValueError(f"Couldn't write to file: {file_path}. Error {error}")
     return file_path
@@ -513,6 +521,15 @@ def _add_plot_extension(file_path):
     return file_path
 
 
+def _save_figure(file_path, **options):
+    """
+    Save the current figure to a file.
+    """
+    content = io.BytesIO()
+    plt.savefig(content, format=Path(file_path).suffix[1:].lower(), **options)
+    _write_file(file_path, content.getvalue())
+
+
 @contextmanager
 def _temporary_figure():
     """
@@ -561,7 +578,7 @@ def save_plot_image(file_path, list_lines, height, width, overwrite=True,
         if not overwrite:
             file_path = _create_file_name(file_path)
         try:
-            plt.savefig(file_path, dpi=dpi)
+            _save_figure(file_path, dpi=dpi)
         except Exception as error:
             raise ValueError(
                 f"Couldn't write to file: {file_path}. Error {error}")
@@ -639,7 +656,7 @@ def save_residual_plot(file_path, list_data, height, width, overwrite=True,
         if not overwrite:
             file_path = _create_file_name(file_path)
         try:
-            plt.savefig(file_path, dpi=dpi, bbox_inches='tight')
+            _save_figure(file_path, dpi=dpi, bbox_inches='tight')
         except Exception as error:
             raise ValueError(
                 f"Couldn't write to file: {file_path}. Error {error}")
@@ -788,7 +805,7 @@ def save_plot_points(file_path, list_points, height, width, overwrite=True,
         if not overwrite:
             file_path = _create_file_name(str(file_path))
         try:
-            plt.savefig(file_path, dpi=dpi)
+            _save_figure(file_path, dpi=dpi)
         except IOError:
             raise ValueError("Couldn't write to file {}".format(file_path))
     return file_path
-- 
2.43.0


From 09c1a0df690634245cefd5741e5ea8e7c7fd450b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:02 +0000
Subject: [PATCH 07/16] fix: don't report a hdf file as saved when writing its
 data failed

HDF5 writes small datasets from a buffer when they are closed and h5py ignores
an error there: with a full disk save_hdf_file returned normally and the file
held zeros (and the process could crash later). A file that couldn't be
completed is now closed and removed; options of open_hdf_stream are checked
before the target is truncated.
---
 discorpy/losa/loadersaver.py | 60 +++++++++++++++++++++++++++---------
 1 file changed, 46 insertions(+), 14 deletions(-)

diff --git a/discorpy/losa/loadersaver.py b/discorpy/losa/loadersaver.py
index 3a7c149..68c0f25 100644
--- a/discorpy/losa/loadersaver.py
+++ b/discorpy/losa/loadersaver.py
@@ -678,6 +678,19 @@ def _plot_residual(fig, list_data, height, width, dpi, font_family):
     plt.plot(list_data[:, 0], list_data[:, 1], '.', markersize=m_size)
 
 
+def _create_hdf_file(file_path):
+    """
+    Create a hdf file. Data are written without being kept in HDF5's sieve
+    buffer: an error of writing the buffer, at the end, is not reported.
+    """
+    fapl = h5py.h5p.create(h5py.h5p.FILE_ACCESS)
+    fapl.set_libver_bounds(h5py.h5f.LIBVER_EARLIEST, h5py.h5f.LIBVER_LATEST)
+    fapl.set_sieve_buf_size(0)
+    fid = h5py.h5f.create(os.fsencode(file_path), h5py.h5f.ACC_TRUNC,
+                          fapl=fapl)
+    return h5py.File(fid)
+
+
 def save_hdf_file(file_path, idata, key_path='entry', overwrite=True):
     """
     Write data to a hdf5 file.
@@ -705,15 +718,29 @@ def save_hdf_file(file_path, idata, key_path='entry', overwrite=True):
     if not overwrite:
         file_path = _create_file_name(str(file_path))
     try:
-        ofile = h5py.File(file_path, 'w')
+        ofile = _create_hdf_file(file_path)
     except Exception as error:
         raise ValueError(f"Couldn't write to file: {file_path}. Error {error}")
-    grp = ofile.create_group(key_path)
-    grp.create_dataset("data", data=idata)
-    ofile.close()
+    try:
+        grp = ofile.create_group(key_path)
+        grp.create_dataset("data", data=idata)
+        ofile.close()
+    except BaseException:
+        _discard_hdf_file(ofile, file_path)
+        raise
     return file_path
 
 
+def _discard_hdf_file(ofile, file_path):
+    """
+    Close and remove an incomplete hdf file.
+    """
+    try:
+        ofile.close()
+    finally:
+        Path(file_path).unlink(missing_ok=True)
+
+
 def open_hdf_stream(file_path, data_shape, key_path='entry/data',
                     data_type='float32', overwrite=True, **options):
     """
@@ -743,26 +770,31 @@ def open_hdf_stream(file_path, data_shape, key_path='entry/data',
     file_path = __get_path(file_path, check_exist=False).resolve()
     if file_path.suffix.lower() not in {'.hdf', '.h5', '.nxs', '.hdf5'}:
         file_path = file_path.with_suffix('.hdf')
+    if len(options) != 0:
+        for opt_name in options:
+            for key in options[opt_name]:
+                if key_path in key:
+                    msg = "!!! Selected key path, '{0}', can not be a " \
+                          "child key-path of '{1}' !!!\n!!! Change to make " \
+                          "sure they are at the same level " \
+                          "!!!".format(key, key_path)
+                    raise ValueError(msg)
     _create_folder(str(file_path))
     if not overwrite:
         file_path = _create_file_name(str(file_path))
     try:
-        ofile = h5py.File(file_path, 'w')
+        ofile = _create_hdf_file(file_path)
     except Exception as error:
         raise ValueError(f"Couldn't write to file: {file_path}. Error {error}")
-    if len(options) != 0:
+    try:
         for opt_name in options:
             opts = options[opt_name]
             for key in opts:
-                if key_path in key:
-                    msg = "!!! Selected key path, '{0}', can not be a " \
-                          "child key-path of '{1}' !!!\n!!! Change to make " \
-                          "sure they are at the same level " \
-                          "!!!".format(key, key_path)
-                    raise ValueError(msg)
                 ofile.create_dataset(key, data=opts[key])
-    data_out = ofile.create_dataset(key_path, data_shape, dtype=data_type)
-    return data_out
+        return ofile.create_dataset(key_path, data_shape, dtype=data_type)
+    except BaseException:
+        _discard_hdf_file(ofile, file_path)
+        raise
 
 
 def save_plot_points(file_path, list_points, height, width, overwrite=True,
-- 
2.43.0


From 6e73687720383d33d858d9b84d79693ef6ac6b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:35 +0000
Subject: [PATCH 08/16] fix: don't take an interrupt or a lack of memory for a
 failed peak fit

The bare except swallowed KeyboardInterrupt, SystemExit and MemoryError and
went on with a different set of peaks; the font check did the same.
---
 discorpy/losa/loadersaver.py | 2 +-
 discorpy/prep/linepattern.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/discorpy/losa/loadersaver.py b/discorpy/losa/loadersaver.py
index 68c0f25..69d653f 100644
--- a/discorpy/losa/loadersaver.py
+++ b/discorpy/losa/loadersaver.py
@@ -616,7 +616,7 @@ def __check_font(font_family):
     try:
         font_manager.findfont(font_family, fallback_to_default=False)
         return True
-    except:
+    except ValueError:
         return False
 
 
diff --git a/discorpy/prep/linepattern.py b/discorpy/prep/linepattern.py
index 18636f7..7a98a50 100644
--- a/discorpy/prep/linepattern.py
+++ b/discorpy/prep/linepattern.py
@@ -96,7 +96,9 @@ def _get_gauss_peak_fit(list_data):
             d = parameters[3]
             fit_data = __gauss_function(list_x, a, b, c, d)
             check = True
-    except:
+    except MemoryError:
+        raise
+    except Exception:
         fit_data = list_data
         c, d = list_x[0], 1.0
     return fit_data, c, d, check
-- 
2.43.0


From cb01eb6833aa788e4cb89dbf4a7381c2c244feb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:54 +0000
Subject: [PATCH 09/16] fix: accept stop_index=-1 in
 unwarp_chunk_slices_backward

The last slice was set to one past the end, which the next line refuses.
---
 discorpy/post/postprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discorpy/post/postprocessing.py b/discorpy/post/postprocessing.py
index e86f39a..23e58fd 100644
--- a/discorpy/post/postprocessing.py
+++ b/discorpy/post/postprocessing.py
@@ -283,7 +283,7 @@ def unwarp_chunk_slices_backward(mat3D, xcenter, ycenter, list_fact,
     (depth, height, width) = mat3D.shape
     index_list = np.arange(height, dtype=np.int16)
     if stop_index == -1:
-        stop_index = height
+        stop_index = height - 1
     if (start_index not in index_list) or (stop_index not in index_list):
         raise ValueError("Selected index is out of the range")
     xu_list = np.arange(0, width) - xcenter
-- 
2.43.0


From 2b8b8a921aad57f5957c6b459a9cddf67b59348c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:59 +0000
Subject: [PATCH 10/16] fix: let ESC stop unwarp_video_cv2 and release the
 camera on an error

The key was only polled after a frame was read, so the loop could not be left
once the camera stopped delivering; the first frame was dropped; a failing
first read left the padding undefined; an error left the camera open.
---
 discorpy/util/utility.py | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/discorpy/util/utility.py b/discorpy/util/utility.py
index 2a59ce3..6d3c6a0 100644
--- a/discorpy/util/utility.py
+++ b/discorpy/util/utility.py
@@ -489,13 +489,22 @@ def unwarp_video_cv2(cam_obj, xcenter, ycenter, list_fact, method=None,
         [factor * ru_mat ** i for i, factor in enumerate(list_fact)]), axis=0)
     xd_mat = np.float32(np.clip(xcenter + fact_mat * xu_mat, 0, width - 1))
     yd_mat = np.float32(np.clip(ycenter + fact_mat * yu_mat, 0, height - 1))
-    check, frame = cam_obj.read()
-    if check:
-        num_dim = len(frame.shape)
-        if num_dim == 2:
-            pad_width = [(t_pad, b_pad), (l_pad, r_pad)]
-        else:
-            pad_width = [(t_pad, b_pad), (l_pad, r_pad), (0, 0)]
+    pad_width = [(t_pad, b_pad), (l_pad, r_pad), (0, 0)]
+    try:
+        _show_unwarped_frames(cam_obj, xd_mat, yd_mat, method, border, pad,
+                              pad_width, pad_mode)
+    finally:
+        cam_obj.release()
+        cv2.destroyAllWindows()
+
+
+def _show_unwarped_frames(cam_obj, xd_mat, yd_mat, method, border, pad,
+                          pad_width, pad_mode):  # pragma: no cover
+    """
+    Supplementary method for unwarping and displaying frames until the ESC key
+    is pressed.
+    """
+    import cv2
     while True:
         check, frame = cam_obj.read()
         if check:
@@ -503,12 +512,11 @@ def unwarp_video_cv2(cam_obj, xcenter, ycenter, list_fact, method=None,
                 uframe = mapping_cv2(frame, xd_mat, yd_mat, method=method,
                                      border=border)
             else:
-                frame_pad = np.pad(frame, pad_width, mode=pad_mode)
+                frame_pad = np.pad(frame, pad_width[:frame.ndim],
+                                   mode=pad_mode)
                 uframe = mapping_cv2(frame_pad, xd_mat, yd_mat, method=method,
                                      border=border)
             cv2.imshow("Press ESC to exit", uframe)
-            c = cv2.waitKey(1)
-            if c == 27:
-                break
-    cam_obj.release()
-    cv2.destroyAllWindows()
+        c = cv2.waitKey(1)
+        if c == 27:
+            break
-- 
2.43.0


From 458b522a09cdffeeee3b0eddafb0cc9d17ae7ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:40 +0000
Subject: [PATCH 11/16] fix: keep the warning filters when lines are detected
 in several threads

catch_warnings saves and restores filters shared by all threads: two threads
fitting peaks at the same time could leave OptimizeWarning ignored for good.
---
 discorpy/prep/linepattern.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/discorpy/prep/linepattern.py b/discorpy/prep/linepattern.py
index 7a98a50..9fb0330 100644
--- a/discorpy/prep/linepattern.py
+++ b/discorpy/prep/linepattern.py
@@ -35,6 +35,7 @@ chessboard images:
 -   Select good points using Gaussian peak fitting.
 """
 
+import threading
 import warnings
 import numpy as np
 import scipy.ndimage as ndi
@@ -42,6 +43,9 @@ from skimage.transform import radon
 from scipy.optimize import curve_fit, OptimizeWarning
 import discorpy.prep.preprocessing as prep
 
+# Warning filters are shared by threads and can't be changed by two at a time
+_WARNINGS_LOCK = threading.Lock()
+
 
 def locate_subpixel_point(list_point, option="min"):
     """
@@ -87,7 +91,7 @@ def _get_gauss_peak_fit(list_data):
     check = False
     try:
         init_guess = [1.0, 1.0, 0.0, 0.0]
-        with warnings.catch_warnings():
+        with _WARNINGS_LOCK, warnings.catch_warnings():
             warnings.simplefilter("ignore", category=OptimizeWarning)
             parameters = curve_fit(__gauss_function, list_x, list_data,
                                    p0=init_guess)[0]
-- 
2.43.0


From 98b4999e725010fbceb447827dd34c7804ef9663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:33 +0000
Subject: [PATCH 12/16] fix: rescale signed integer images without overflow

---
 discorpy/losa/loadersaver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discorpy/losa/loadersaver.py b/discorpy/losa/loadersaver.py
index 69d653f..6ad5993 100644
--- a/discorpy/losa/loadersaver.py
+++ b/discorpy/losa/loadersaver.py
@@ -488,7 +488,8 @@ def save_image(file_path, mat, overwrite=True):
                          f"Unknown file extension: {file_ext}")
     if not ((file_ext == ".tif") or (file_ext == ".tiff")):
         if mat.dtype != np.uint8:
-            nmin, nmax = np.min(mat), np.max(mat)
+            # As floats: the range of signed integers may overflow their type
+            nmin, nmax = float(np.min(mat)), float(np.max(mat))
             if nmax != nmin:
                 mat = np.uint8(255.0 * (mat - nmin) / (nmax - nmin))
             else:
-- 
2.43.0


From 7585e78133f2354d4a965e3b0125f39ff80486bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:23 +0000
Subject: [PATCH 13/16] fix: load a single slice along the last axis of a hdf
 dataset

---
 discorpy/losa/loadersaver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discorpy/losa/loadersaver.py b/discorpy/losa/loadersaver.py
index 6ad5993..98d3105 100644
--- a/discorpy/losa/loadersaver.py
+++ b/discorpy/losa/loadersaver.py
@@ -350,10 +350,10 @@ def _read_hdf_data(ifile, key_path, index, axis):
                         mat = np.float32(idata[:, :, list_index])
                 except IndexError:
                     raise
-            if mat.shape[axis] == 1:
-                mat = np.swapaxes(mat, axis, 0)[0]
             if mat.shape[axis] == 0:
                 raise ValueError("Empty indices!")
+            if mat.shape[axis] == 1:
+                mat = np.take(mat, 0, axis=axis)
     return mat
 
 
-- 
2.43.0


From 55e40cefde008abcb5e93777709b862829dfd4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:30 +0000
Subject: [PATCH 14/16] fix: close an image file when loading it fails

---
 discorpy/losa/loadersaver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discorpy/losa/loadersaver.py b/discorpy/losa/loadersaver.py
index 98d3105..a8f85f6 100644
--- a/discorpy/losa/loadersaver.py
+++ b/discorpy/losa/loadersaver.py
@@ -101,7 +101,8 @@ def load_image(file_path, average=True):
     array_like
     """
     try:
-        mat = np.array(Image.open(__get_path(file_path)), dtype=np.float32)
+        with open(__get_path(file_path), 'rb') as ifile:
+            mat = np.array(Image.open(ifile), dtype=np.float32)
     except Exception as error:
         raise ValueError(error)
     if len(mat.shape) > 2 and average is True:
-- 
2.43.0


From 6620c839fab71b28b47302c6f28300f07a6589d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:31 +0000
Subject: [PATCH 15/16] fix: correct slices beyond row 32767 of a stack

---
 discorpy/post/postprocessing.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/discorpy/post/postprocessing.py b/discorpy/post/postprocessing.py
index 23e58fd..32ff18a 100644
--- a/discorpy/post/postprocessing.py
+++ b/discorpy/post/postprocessing.py
@@ -218,8 +218,8 @@ def unwarp_slice_backward(mat3D, xcenter, ycenter, list_fact, index):
         [factor * ru_list ** i for i, factor in enumerate(list_fact)]), axis=0)
     xd_list = np.clip(xcenter + flist * xu_list, 0, width - 1)
     yd_list = np.clip(ycenter + flist * yu, 0, height - 1)
-    yd_min = np.int16(np.floor(np.amin(yd_list)))
-    yd_max = np.int16(np.ceil(np.amax(yd_list))) + 1
+    yd_min = int(np.floor(np.amin(yd_list)))
+    yd_max = int(np.ceil(np.amax(yd_list))) + 1
     yd_list = yd_list - yd_min
     sino = np.zeros((depth, width), dtype=np.float32)
     indices = yd_list, xd_list
@@ -281,7 +281,7 @@ def unwarp_chunk_slices_backward(mat3D, xcenter, ycenter, list_fact,
     if (len(mat3D.shape) < 3):
         raise ValueError("Input must be a 3D data")
     (depth, height, width) = mat3D.shape
-    index_list = np.arange(height, dtype=np.int16)
+    index_list = np.arange(height)
     if stop_index == -1:
         stop_index = height - 1
     if (start_index not in index_list) or (stop_index not in index_list):
@@ -297,8 +297,8 @@ def unwarp_chunk_slices_backward(mat3D, xcenter, ycenter, list_fact,
     flist = np.sum(np.asarray(
         [factor * ru_list ** i for i, factor in enumerate(list_fact)]), axis=0)
     yd_list2 = np.clip(ycenter + flist * yu2, 0, height - 1)
-    yd_min = np.int16(np.floor(np.amin(yd_list1)))
-    yd_max = np.int16(np.ceil(np.amax(yd_list2))) + 1
+    yd_min = int(np.floor(np.amin(yd_list1)))
+    yd_max = int(np.ceil(np.amax(yd_list2))) + 1
     yu_list = np.arange(start_index, stop_index + 1) - ycenter
     xu_mat, yu_mat = np.meshgrid(xu_list, yu_list)
     ru_mat = np.sqrt(xu_mat ** 2 + yu_mat ** 2)
-- 
2.43.0


From d20ccaa9c82c0c02f58b6d4b4efb5cf017bfc5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:31 +0000
Subject: [PATCH 16/16] fix: a failing save_hdf_file could leave a loadable
 file with wrong data

An incomplete hdf file becomes a valid one, with zeros in place of the data,
when it's closed. It stayed at the path of the file if the program was killed,
or removing it failed, after an error of writing the data.
---
 discorpy/losa/loadersaver.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/discorpy/losa/loadersaver.py b/discorpy/losa/loadersaver.py
index a8f85f6..1f70a30 100644
--- a/discorpy/losa/loadersaver.py
+++ b/discorpy/losa/loadersaver.py
@@ -719,16 +719,22 @@ def save_hdf_file(file_path, idata, key_path='entry', overwrite=True):
     _create_folder(str(file_path))
     if not overwrite:
         file_path = _create_file_name(str(file_path))
+    # Closing an incomplete file makes it a loadable one with wrong data
+    tmp_path = Path(file_path).with_name(f".{uuid.uuid4().hex}.tmp")
     try:
-        ofile = _create_hdf_file(file_path)
-    except Exception as error:
+        ofile = _create_hdf_file(tmp_path)
+    except BaseException as error:
+        tmp_path.unlink(missing_ok=True)
+        if not isinstance(error, Exception):
+            raise
         raise ValueError(f"Couldn't write to file: {file_path}. Error {error}")
     try:
         grp = ofile.create_group(key_path)
         grp.create_dataset("data", data=idata)
         ofile.close()
+        os.replace(tmp_path, file_path)
     except BaseException:
-        _discard_hdf_file(ofile, file_path)
+        _discard_hdf_file(ofile, tmp_path)
         raise
     return file_path
 
-- 
2.43.0

