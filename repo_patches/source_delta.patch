From 81c6ba8607b3c0aa724f43e16465e402797b850a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:39 +0000
Subject: [PATCH 01/38] fix: load reducer and fitter modules with importlib

pkgutil's loader.find_module() no longer exists in Python 3.12, so the
reducer chain and the spectrum fitter factory could not be imported. Skip
the modules' dunder members by their own name, which otherwise replaced the
package's __name__.
---
 CHECLabPy/spectrum_fitters/__init__.py  | 5 +++--
 CHECLabPy/waveform_reducers/__init__.py | 7 ++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/CHECLabPy/spectrum_fitters/__init__.py b/CHECLabPy/spectrum_fitters/__init__.py
index 575a152..d80f7c5 100644
--- a/CHECLabPy/spectrum_fitters/__init__.py
+++ b/CHECLabPy/spectrum_fitters/__init__.py
@@ -4,11 +4,12 @@ Module for containing all the charge spectrum fitters
 
 __all__ = []
 
+import importlib
 import pkgutil
 import inspect
 
-for loader, name, is_pkg in pkgutil.walk_packages(__path__):
-    module = loader.find_module(name).load_module(name)
+for loader, name, is_pkg in pkgutil.iter_modules(__path__):
+    module = importlib.import_module("{}.{}".format(__name__, name))
 
     for name, value in inspect.getmembers(module):
         if name.startswith('__'):
diff --git a/CHECLabPy/waveform_reducers/__init__.py b/CHECLabPy/waveform_reducers/__init__.py
index 4c780a9..810ef75 100644
--- a/CHECLabPy/waveform_reducers/__init__.py
+++ b/CHECLabPy/waveform_reducers/__init__.py
@@ -11,14 +11,15 @@ executable.
 
 __all__ = []
 
+import importlib
 import pkgutil
 import inspect
 
-for loader, name, is_pkg in pkgutil.walk_packages(__path__):
-    module = loader.find_module(name).load_module(name)
+for loader, name, is_pkg in pkgutil.iter_modules(__path__):
+    module = importlib.import_module("{}.{}".format(__name__, name))
 
     for key, value in inspect.getmembers(module):
-        if name.startswith('__'):
+        if key.startswith('__'):
             continue
 
         globals()[key] = value
-- 
2.43.0


From e90de4979ffdfd1d15623277deb2947f607fa273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:19 +0000
Subject: [PATCH 02/38] fix: use builtin types for numpy dtypes

np.bool and np.int were removed in numpy 1.24: PixelMasks, AmplitudeMatcher
and SimtelReader could not be constructed.
---
 CHECLabPy/calib/amplitude_matcher.py | 2 +-
 CHECLabPy/calib/pixel_masks.py       | 6 +++---
 CHECLabPy/core/io/simtel.py          | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/CHECLabPy/calib/amplitude_matcher.py b/CHECLabPy/calib/amplitude_matcher.py
index b291737..7ad6476 100644
--- a/CHECLabPy/calib/amplitude_matcher.py
+++ b/CHECLabPy/calib/amplitude_matcher.py
@@ -50,7 +50,7 @@ class AmplitudeMatcher:
         self.starting_dacs = starting_dacs.ravel()
 
         if bad_hv is None:
-            self.sp_mask = np.zeros(n_superpixels, dtype=np.bool)
+            self.sp_mask = np.zeros(n_superpixels, dtype=bool)
         else:
             if bad_hv.size == n_pixels:
                 bad_hv.reshape((n_superpixels, 4)).all(1)
diff --git a/CHECLabPy/calib/pixel_masks.py b/CHECLabPy/calib/pixel_masks.py
index eab3dfc..71db956 100644
--- a/CHECLabPy/calib/pixel_masks.py
+++ b/CHECLabPy/calib/pixel_masks.py
@@ -28,9 +28,9 @@ class PixelMasks:
         path : str
             OPTIONAL specify a particular pixel mask file to load
         """
-        self.dead = np.zeros(N_PIXELS, dtype=np.bool)
-        self.low = np.zeros(N_PIXELS, dtype=np.bool)
-        self.bad_hv = np.zeros(N_SUPERPIXELS, dtype=np.bool)
+        self.dead = np.zeros(N_PIXELS, dtype=bool)
+        self.low = np.zeros(N_PIXELS, dtype=bool)
+        self.bad_hv = np.zeros(N_SUPERPIXELS, dtype=bool)
         self._load_file(path=path, merge=False)
 
     def _load_file(self, path=None, merge=False):
diff --git a/CHECLabPy/core/io/simtel.py b/CHECLabPy/core/io/simtel.py
index fdc695b..dd8e3dd 100644
--- a/CHECLabPy/core/io/simtel.py
+++ b/CHECLabPy/core/io/simtel.py
@@ -68,8 +68,8 @@ class SimtelReader(WaveformReader):
         pix_x = engineering_geom.pix_x.value
         pix_y = engineering_geom.pix_y.value
         row, col = get_row_column(pix_x, pix_y)
-        camera_2d = np.zeros((n_rows, n_columns), dtype=np.int)
-        camera_2d[row, col] = np.arange(self.n_pixels, dtype=np.int)
+        camera_2d = np.zeros((n_rows, n_columns), dtype=int)
+        camera_2d[row, col] = np.arange(self.n_pixels, dtype=int)
         self.pixel_order = camera_2d[self.mapping['row'], self.mapping['col']]
 
         self.reference_pulse_path = self._camera_config.GetReferencePulsePath()
-- 
2.43.0


From 8e0b4b04194ea88fc2a9f94f08292870d0f5c91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:04 +0000
Subject: [PATCH 03/38] fix: take the DL1 generation date from pd.Timestamp

pd.datetime was removed in pandas 2, so extract_dl1 failed at the end of
every run.
---
 CHECLabPy/scripts/extract_dl1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/scripts/extract_dl1.py b/CHECLabPy/scripts/extract_dl1.py
index c5b665b..132641f 100644
--- a/CHECLabPy/scripts/extract_dl1.py
+++ b/CHECLabPy/scripts/extract_dl1.py
@@ -138,7 +138,7 @@ class DL1Extractor:
             source=self.source,
             run_id=self.reader.run_id,
             is_mc=self.reader.is_mc,
-            date_generated=pd.datetime.now(),
+            date_generated=pd.Timestamp.now(),
             input_path=self.reader.path,
             n_modules=self.reader.n_modules,
             n_pixels=self.reader.n_pixels,
-- 
2.43.0


From c385922a7cb2c8c4a72c1e31c86f8447f57bf72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:40 +0000
Subject: [PATCH 04/38] fix: use DataFrame.loc for the TM edge labels

DataFrame.ix was removed in pandas 1.0.
---
 CHECLabPy/plotting/camera.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CHECLabPy/plotting/camera.py b/CHECLabPy/plotting/camera.py
index 2a14f7a..b6f8d9d 100644
--- a/CHECLabPy/plotting/camera.py
+++ b/CHECLabPy/plotting/camera.py
@@ -227,8 +227,8 @@ class CameraImage(Plotter):
             kw = dict(fontsize=6, color='black', ha='center')
             m = self._mapping
             pix_size = self._mapping.metadata['size']
-            f_tm_top = lambda g: m.ix[m.ix[g.index]['row'].idxmax(), 'slot']
-            f_tm_bottom = lambda g: m.ix[m.ix[g.index]['row'].idxmin(), 'slot']
+            f_tm_top = lambda g: m.loc[m.loc[g.index]['row'].idxmax(), 'slot']
+            f_tm_bottom = lambda g: m.loc[m.loc[g.index]['row'].idxmin(), 'slot']
             tm_top = np.unique(m.groupby('col').agg(f_tm_top)['slot'])
             tm_bottom = np.unique(m.groupby('col').agg(f_tm_bottom)['slot'])
             for tm in tm_top:
@@ -493,8 +493,8 @@ class CameraImageImshow(Plotter):
             kw = dict(fontsize=6, color='black', ha='center')
             m = self._mapping
             n_rows = m.metadata['n_rows']
-            f_tm_top = lambda g: m.ix[m.ix[g.index]['row'].idxmax(), 'slot']
-            f_tm_bottom = lambda g: m.ix[m.ix[g.index]['row'].idxmin(), 'slot']
+            f_tm_top = lambda g: m.loc[m.loc[g.index]['row'].idxmax(), 'slot']
+            f_tm_bottom = lambda g: m.loc[m.loc[g.index]['row'].idxmin(), 'slot']
             tm_top = np.unique(m.groupby('col').agg(f_tm_top)['slot'])
             tm_bottom = np.unique(m.groupby('col').agg(f_tm_bottom)['slot'])
             for tm in tm_top:
-- 
2.43.0


From 676bead3112f799c6912457c602c9f1b03c77f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:12 +0000
Subject: [PATCH 05/38] fix: take the next plot colour through get_next_color

Matplotlib 3.8 removed _get_lines.prop_cycler, so SPE fits could not be
plotted (plotting/resolutions.py already uses get_next_color).
---
 CHECLabPy/plotting/spe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/plotting/spe.py b/CHECLabPy/plotting/spe.py
index ffe3146..17bb1b4 100644
--- a/CHECLabPy/plotting/spe.py
+++ b/CHECLabPy/plotting/spe.py
@@ -14,7 +14,7 @@ class SpectrumFitPlotter(Plotter):
     def plot(self, hist_x, hist_y, hist_edges, fit_x, fit_y, values, errors, initial):
         for i in range(self.n_illuminations):
             label = f"λ_{i} = {values[f'lambda_{i}']:.3f} ± {errors[f'lambda_{i}']:.3f} p.e."
-            color = next(self.ax._get_lines.prop_cycler)['color']
+            color = self.ax._get_lines.get_next_color()
             self.ax.hist(
                 hist_x,  weights=hist_y[i], bins=hist_edges,
                 histtype='step', color=color
-- 
2.43.0


From ba048b7a289b0086797e318f1dfc18592d9c0482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:44 +0000
Subject: [PATCH 06/38] fix: reduce a per-pixel bad HV mask to superpixels

The reduced mask was discarded, so AmplitudeMatcher indexed the pixel mask
with superpixel numbers and left the bad superpixels at their DAC.
---
 CHECLabPy/calib/amplitude_matcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/calib/amplitude_matcher.py b/CHECLabPy/calib/amplitude_matcher.py
index 7ad6476..d1fb7d9 100644
--- a/CHECLabPy/calib/amplitude_matcher.py
+++ b/CHECLabPy/calib/amplitude_matcher.py
@@ -53,7 +53,7 @@ class AmplitudeMatcher:
             self.sp_mask = np.zeros(n_superpixels, dtype=bool)
         else:
             if bad_hv.size == n_pixels:
-                bad_hv.reshape((n_superpixels, 4)).all(1)
+                bad_hv = bad_hv.reshape((n_superpixels, 4)).all(1)
             self.sp_mask = bad_hv.ravel()
 
         self.illumination_profile = illumination_profile
-- 
2.43.0


From 9e9344677df85bb25fe49c86661c06a690b22640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:09 +0000
Subject: [PATCH 07/38] fix: return the final DACs in the documented (32, 16)
 shape

---
 CHECLabPy/calib/amplitude_matcher.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/CHECLabPy/calib/amplitude_matcher.py b/CHECLabPy/calib/amplitude_matcher.py
index d1fb7d9..43bd102 100644
--- a/CHECLabPy/calib/amplitude_matcher.py
+++ b/CHECLabPy/calib/amplitude_matcher.py
@@ -175,7 +175,9 @@ class AmplitudeMatcher:
             self.global_stage += 1
 
         if self.global_stage == GLOBALSTAGE.FINISH:
-            return self.current_dac, average_amplitude_pix, True
+            return (
+                self.current_dac.reshape((32, 16)), average_amplitude_pix, True
+            )
 
         next_dac = self._get_next_dac(distance, direction)
         finished = (self.stage == STAGE.FINISH).all()
-- 
2.43.0


From 8c43a8daed4f735d5b5ae2e7b6d3431fa32dad18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:37 +0000
Subject: [PATCH 08/38] fix: read files with a metadata-only key

add_metadata(key='run', name='config', ...) creates an empty table without
a 'metadata' attribute, and HDF5Reader could then not open the file.
---
 CHECLabPy/core/io/hdf5_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/core/io/hdf5_reader.py b/CHECLabPy/core/io/hdf5_reader.py
index 57ccb84..e804f11 100644
--- a/CHECLabPy/core/io/hdf5_reader.py
+++ b/CHECLabPy/core/io/hdf5_reader.py
@@ -48,7 +48,7 @@ class HDF5Reader:
             key = key[1:]
             try:
                 n_bytes = self.store.get_storer(key).attrs.metadata['n_bytes']
-            except KeyError:
+            except (AttributeError, KeyError):
                 n_bytes = 0
             if key in ['mapping']:
                 continue
-- 
2.43.0


From bf6943d8e42a77a91d5853156884f08433b62691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:29 +0000
Subject: [PATCH 09/38] fix: keep the byte counts of an appended file
 consistent

HDF5Appender replaced a table's n_bytes by the size of the newly appended
rows only, and counted a table overwritten with write() twice in
total_bytes.
---
 CHECLabPy/core/io/hdf5_appender.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CHECLabPy/core/io/hdf5_appender.py b/CHECLabPy/core/io/hdf5_appender.py
index 78d7268..58340c7 100644
--- a/CHECLabPy/core/io/hdf5_appender.py
+++ b/CHECLabPy/core/io/hdf5_appender.py
@@ -35,6 +35,8 @@ class HDF5Appender(HDF5Reader, HDF5Writer):
         self.n_bytes = defaultdict(int)
 
         self._generate_contents_list()
+        for key in self.dataframe_keys:
+            self.n_bytes[key] = self.get_n_bytes(key)
 
         if parse(self.version).release[0] < parse(__version__).release[0]:
             warnings.warn(
@@ -72,13 +74,11 @@ class HDF5Appender(HDF5Reader, HDF5Writer):
         the metadata. This is method is automatically called when HDF5Writer
         is used in a context manager (i.e. `with HDF5Writer(path) as writer:`)
         """
-        total_bytes = self.get_metadata()['total_bytes']
         for key in self.keys:
             self._append_to_store(key)
             self.add_metadata(key=key, n_bytes=self.n_bytes[key])
-            total_bytes += self.n_bytes[key]
         self.add_metadata(
-            total_bytes=total_bytes,
+            total_bytes=sum(self.n_bytes.values()),
             version=__version__,
         )
         self._save_metadata()
-- 
2.43.0


From a2c1f56ea4b99d05fc8565708ee20ee951e8927e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:36 +0000
Subject: [PATCH 10/38] fix: do not read outside the waveform in
 extract_pulse_time

A cross correlation peaking in the last sample made the compiled kernel read
past the end of the waveform (the next pixel, or unrelated memory for the
last one); in the first sample it interpolated with the last sample.
---
 CHECLabPy/waveform_reducers/cross_correlation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/CHECLabPy/waveform_reducers/cross_correlation.py b/CHECLabPy/waveform_reducers/cross_correlation.py
index 94078d9..feff4b5 100644
--- a/CHECLabPy/waveform_reducers/cross_correlation.py
+++ b/CHECLabPy/waveform_reducers/cross_correlation.py
@@ -16,6 +16,10 @@ from numba import guvectorize, float64, float32, int64
 )
 def extract_pulse_time(waveforms, peak_index, ret):
     n_samples = waveforms.size
+    if peak_index < 1 or peak_index > n_samples - 2:
+        # No neighbouring samples to interpolate with
+        ret[0] = peak_index
+        return
     y0 = waveforms[peak_index - 1]
     y1 = waveforms[peak_index]
     y2 = waveforms[peak_index + 1]
-- 
2.43.0


From 2345c692a425f7c2ff22c26316e40740673a042a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:00 +0000
Subject: [PATCH 11/38] fix: do not read outside the waveform in
 obtain_pulse_timing

With a configured window reaching the edge of the waveform the compiled
kernel read the sample before the first or after the last one, and a window
starting before the first sample was empty.
---
 CHECLabPy/waveform_reducers/timing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/CHECLabPy/waveform_reducers/timing.py b/CHECLabPy/waveform_reducers/timing.py
index ec6019c..3343809 100644
--- a/CHECLabPy/waveform_reducers/timing.py
+++ b/CHECLabPy/waveform_reducers/timing.py
@@ -27,6 +27,8 @@ def obtain_pulse_timing(waveforms, window_start, window_end):
         # __Obtain Pulse Time__
         #######################
         peakpos = np.argmax(wf[window_start:window_end]) + window_start
+        if peakpos < 1 or peakpos > n_samples - 2:
+            continue  # No neighbouring samples to interpolate with
 
         y0 = wf[peakpos - 1]
         y1 = wf[peakpos]
@@ -161,6 +163,7 @@ class Timing(WaveformReducer):
                 t_extract = n_samples - 10
         window_start = t_extract - self.window_shift
         window_end = window_start + self.window_size
+        window_start = max(window_start, 0)
 
         params = obtain_pulse_timing(waveforms, window_start, window_end)
         t_pulse, h_pulse, fwhm, rise_time, t_l, t_r, t10, t90 = params
-- 
2.43.0


From e9217cf44469741637a4283e1d62abf7cf2ef987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:23 +0000
Subject: [PATCH 12/38] fix: clip integration windows that start before the
 first sample

A negative start was taken as an index from the end of the waveform, so
charge_averagewf was 0 and saturation_sum summed only the last samples.
---
 CHECLabPy/waveform_reducers/average_wf.py | 3 ++-
 CHECLabPy/waveform_reducers/saturation.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/CHECLabPy/waveform_reducers/average_wf.py b/CHECLabPy/waveform_reducers/average_wf.py
index ee758f7..04ca14c 100644
--- a/CHECLabPy/waveform_reducers/average_wf.py
+++ b/CHECLabPy/waveform_reducers/average_wf.py
@@ -41,7 +41,8 @@ class AverageWF(WaveformReducer):
         from the average waveform.
         """
         start = self.t - self.window_shift
-        end = start + self.window_size
+        end = max(start + self.window_size, 0)
+        start = max(start, 0)
 
         charge = np.sum(self.waveforms[:, start:end], axis=1)
         return charge
diff --git a/CHECLabPy/waveform_reducers/saturation.py b/CHECLabPy/waveform_reducers/saturation.py
index 188413e..bca2e67 100644
--- a/CHECLabPy/waveform_reducers/saturation.py
+++ b/CHECLabPy/waveform_reducers/saturation.py
@@ -28,7 +28,7 @@ class Saturation(WaveformReducer):
                 t_event = 10
             elif t_event > n_samples - 10:
                 t_event = n_samples - 10
-        start = t_event - self.window_shift
+        start = max(t_event - self.window_shift, 0)
 
         coeff = np.sum(self.waveforms[:, start:], axis=1)
         return coeff
-- 
2.43.0


From b11e6a073cb1ade78a729596ea4ff834987ed0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:27 +0000
Subject: [PATCH 13/38] fix: support whole-sample time corrections

floor and ceil coincide for a correction that is a whole number of samples
(zero included), and the interpolation divided by zero.
---
 CHECLabPy/calib/time_calibrator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CHECLabPy/calib/time_calibrator.py b/CHECLabPy/calib/time_calibrator.py
index 63c4314..40ed92e 100644
--- a/CHECLabPy/calib/time_calibrator.py
+++ b/CHECLabPy/calib/time_calibrator.py
@@ -1,7 +1,7 @@
 import pandas as pd
 from CHECLabPy.calib import get_calib_data
 from numba import njit, prange, float64, float32
-from math import floor, ceil
+from math import floor
 
 
 @njit([
@@ -16,7 +16,7 @@ def apply_t_cor(waveforms, t_cor):
         for isample in prange(n_samples):
             x = isample - correction
             x1 = floor(x)
-            x2 = ceil(x)
+            x2 = x1 + 1
             if x1 < 0:
                 x1 = 0
                 x2 = 1
-- 
2.43.0


From 666bca69d84d48d5e1fd6579be7de881d61ea482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:44 +0000
Subject: [PATCH 14/38] fix: average the baseline over the available events
 only

For a source with fewer than n_base events the unfilled entries (zeros) were
included in the rolling average, so only part of the baseline was
subtracted.
---
 CHECLabPy/utils/waveform.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/CHECLabPy/utils/waveform.py b/CHECLabPy/utils/waveform.py
index 72bf977..303c46b 100644
--- a/CHECLabPy/utils/waveform.py
+++ b/CHECLabPy/utils/waveform.py
@@ -18,11 +18,16 @@ class BaselineSubtractor:
         self.iev = 0
 
         self.baseline_waveforms = np.zeros((n_base, n_pixels, n_base_samples))
+        n_filled = 0
         for waveforms in source:
             iev = waveforms.iev
             if iev >= n_base:
                 break
             self.baseline_waveforms[iev] = waveforms[:, :n_base_samples]
+            n_filled += 1
+        if 0 < n_filled < n_base:  # Source has fewer events than n_base
+            self.n_base = n_filled
+            self.baseline_waveforms = self.baseline_waveforms[:n_filled]
         self.baseline = np.mean(self.baseline_waveforms, axis=(0, 2))
 
     def update_baseline(self, waveforms):
-- 
2.43.0


From f3f73cd9a860f6faaae53b168bd6929700a6233d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:07 +0000
Subject: [PATCH 15/38] fix: apply the loaded fitter configuration to the fit

load_config and update_initial changed the parameters, but not the arguments
prepared from them for Minuit: the fit ignored the loaded initial values,
limits and fixed flags.
---
 CHECLabPy/core/spectrum_fitter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CHECLabPy/core/spectrum_fitter.py b/CHECLabPy/core/spectrum_fitter.py
index 746c03f..3516c03 100644
--- a/CHECLabPy/core/spectrum_fitter.py
+++ b/CHECLabPy/core/spectrum_fitter.py
@@ -162,6 +162,7 @@ class SpectrumFitter:
                     param.limits = tuple(d['limits'].pop(param.name, param.limits))
                 if 'fixed' in d:
                     param.fixed = d['fixed'].pop(param.name, param.fixed)
+            self.parameters._prepare_parameters()
             if 'initial' in d and not d['initial']:
                 d.pop('initial')
             if 'limits' in d and not d['limits']:
@@ -252,6 +253,7 @@ class SpectrumFitter:
                 param.initial = self.fit_result_values[f"{param.name}{illumination}"]
             else:
                 param.initial = self.fit_result_values[param.name]
+        self.parameters._prepare_parameters()
 
     def apply(self, *charges):
         """
-- 
2.43.0


From 360c7493441e609212b1e1b0e449ee34a2ca7caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:33 +0000
Subject: [PATCH 16/38] fix: do not stop the Gentile spectrum before its first
 peak

For lambda > 11.8 the probability of a single fired cell is insignificant,
which ended the loop with only the pedestal in the spectrum.
---
 CHECLabPy/spectrum_fitters/gentile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/spectrum_fitters/gentile.py b/CHECLabPy/spectrum_fitters/gentile.py
index 776b118..7abe64f 100644
--- a/CHECLabPy/spectrum_fitters/gentile.py
+++ b/CHECLabPy/spectrum_fitters/gentile.py
@@ -110,7 +110,7 @@ def sipm_gentile_spe(x, eped, eped_sigma, spe, spe_sigma, opct, lambda_):
         # Skip insignificant probabilities
         if pk > pk_max:
             pk_max = pk
-        elif pk < 1e-4:
+        elif pk < 1e-4 and pk_max > 0:
             break
 
         # Combine spread of pedestal and pe peaks
-- 
2.43.0


From 6e032c7ae8877ac083f4cca9606423b265268fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:55 +0000
Subject: [PATCH 17/38] fix: store the SPE fit results in pixel order

With several processes the rows were stored in the order in which the fits
finished, while plot_spe shows them on the camera by position.
---
 CHECLabPy/scripts/extract_spe.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CHECLabPy/scripts/extract_spe.py b/CHECLabPy/scripts/extract_spe.py
index efc908a..92dec9f 100644
--- a/CHECLabPy/scripts/extract_spe.py
+++ b/CHECLabPy/scripts/extract_spe.py
@@ -153,9 +153,9 @@ def main():
     df_values = pd.DataFrame(list(pixel_fitter.pixel_values.values()))
     df_errors = pd.DataFrame(list(pixel_fitter.pixel_errors.values()))
     df_arrays = pd.DataFrame(list(pixel_fitter.pixel_arrays.values()))
-    df_values = df_values.set_index('pixel')
-    df_errors = df_errors.set_index('pixel')
-    df_arrays = df_arrays.set_index('pixel')
+    df_values = df_values.set_index('pixel').sort_index()
+    df_errors = df_errors.set_index('pixel').sort_index()
+    df_arrays = df_arrays.set_index('pixel').sort_index()
 
     with HDF5Writer(output_path) as writer:
         with warnings.catch_warnings():
-- 
2.43.0


From 6de292ff44955069ec4372fdbb0a542f4ddbe031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:18 +0000
Subject: [PATCH 18/38] fix: store the number of pixels in the SPE metadata

---
 CHECLabPy/scripts/extract_spe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/scripts/extract_spe.py b/CHECLabPy/scripts/extract_spe.py
index 92dec9f..fa08eff 100644
--- a/CHECLabPy/scripts/extract_spe.py
+++ b/CHECLabPy/scripts/extract_spe.py
@@ -170,7 +170,7 @@ def main():
             files=input_paths,
             fitter=fitter.__class__.__name__,
             n_illuminations=n_illuminations,
-            n_pixels=charges[0].shape,
+            n_pixels=charges[0].shape[1],
             initial=initial,
         )
 
-- 
2.43.0


From c24b33edd4cdf023e552d3c8ec4999dfe3c721dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:43 +0000
Subject: [PATCH 19/38] fix: do not let rounding turn a zero standard deviation
 into NaN

The difference of the mean square and the squared mean can round to just
below zero when all charges of a pixel and amplitude are equal.
---
 CHECLabPy/utils/resolutions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CHECLabPy/utils/resolutions.py b/CHECLabPy/utils/resolutions.py
index 4a0f9d2..6495828 100644
--- a/CHECLabPy/utils/resolutions.py
+++ b/CHECLabPy/utils/resolutions.py
@@ -212,7 +212,7 @@ class ChargeStatistics:
         sum2 = df_p['sum2'].values
         n = df_p['n'].values
         mean = sum_ / n
-        std = np.sqrt((sum2 / n) - (mean**2))
+        std = np.sqrt(np.maximum((sum2 / n) - (mean**2), 0))
         df_p['mean'] = mean
         df_p['std'] = std
         df_c = self._df.copy().groupby('amplitude').sum().reset_index()
@@ -221,7 +221,7 @@ class ChargeStatistics:
         sum2 = df_c['sum2'].values
         n = df_c['n'].values
         mean = sum_ / n
-        std = np.sqrt((sum2 / n) - (mean**2))
+        std = np.sqrt(np.maximum((sum2 / n) - (mean**2), 0))
         df_c['mean'] = mean
         df_c['std'] = std
         return df_p, df_c
-- 
2.43.0


From 61e68d4cef41239d1f95cf56919206cdc82e70de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:04 +0000
Subject: [PATCH 20/38] fix: refuse to overwrite the input of extract_dl1

An input whose name contains neither _r1, .tio nor .simtel.gz (or an -o path
equal to the input) was truncated by the new DL1 file.
---
 CHECLabPy/scripts/extract_dl1.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/CHECLabPy/scripts/extract_dl1.py b/CHECLabPy/scripts/extract_dl1.py
index 132641f..cd1d727 100644
--- a/CHECLabPy/scripts/extract_dl1.py
+++ b/CHECLabPy/scripts/extract_dl1.py
@@ -3,6 +3,7 @@ Executable for processing the R1 waveforms, and storing the reduced parameters
 into a HDF5 file, readable as a `pandas.DataFrame`.
 """
 import argparse
+import os
 import numpy as np
 import pandas as pd
 from tqdm import tqdm
@@ -38,6 +39,12 @@ class DL1Writer(HDF5Writer):
                                                                      '.h5')
             if reader.is_mc:
                 output_path = reader.path.replace('.simtel.gz', '_dl1.h5')
+        if os.path.realpath(output_path) == os.path.realpath(reader.path):
+            raise ValueError(
+                "The DL1 file would overwrite the input file, "
+                "please specify a different output path: {}"
+                .format(output_path)
+            )
 
         with cls(output_path) as writer:
             n_events_processed = 0
-- 
2.43.0


From 7d2b00498567bd4c4076b8d1cb8208af9195d604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:27 +0000
Subject: [PATCH 21/38] fix: access the mapping metadata as a dictionary

The conversions back to a TargetCalib mapping read attributes of the
metadata dictionary; the camera version is in the DL1 metadata.
---
 CHECLabPy/core/io/dl1_reader.py | 3 +--
 CHECLabPy/utils/mapping.py      | 4 ++--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/CHECLabPy/core/io/dl1_reader.py b/CHECLabPy/core/io/dl1_reader.py
index e7a68a7..34c3a66 100644
--- a/CHECLabPy/core/io/dl1_reader.py
+++ b/CHECLabPy/core/io/dl1_reader.py
@@ -89,8 +89,7 @@ class DL1Reader(HDF5Reader):
         Obtain the TargetCalib mapping class
         """
         from target_calib import CameraConfiguration
-        version = self.mapping.metadata.version
-        camera_config = CameraConfiguration(version)
+        camera_config = CameraConfiguration(self.camera_version)
         return camera_config.GetMapping(self.n_modules == 1)
 
     @property
diff --git a/CHECLabPy/utils/mapping.py b/CHECLabPy/utils/mapping.py
index a0dfd14..9ca40f3 100644
--- a/CHECLabPy/utils/mapping.py
+++ b/CHECLabPy/utils/mapping.py
@@ -70,8 +70,8 @@ def get_tc_mapping_from_clp_mapping(mapping):
 
     """
     from target_calib import Mapping
-    cfgfile = mapping.metadata.cfgfile
-    is_single_module = mapping.metadata.is_single_module
+    cfgfile = mapping.metadata['cfgfile']
+    is_single_module = mapping.metadata['is_single_module']
     return Mapping(cfgfile, is_single_module)
 
 
-- 
2.43.0


From 9f8971ec33ebba6326f03da6449b492677340189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:04 +0000
Subject: [PATCH 22/38] fix: store DL1 floats with the same type in every flush

pd.to_numeric only downcasts a column if its values survive it, so a bright
event in a later 0.5 GB flush changed the column type and the append to the
table failed, losing the rest of the run.
---
 CHECLabPy/scripts/extract_dl1.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/CHECLabPy/scripts/extract_dl1.py b/CHECLabPy/scripts/extract_dl1.py
index cd1d727..56a825f 100644
--- a/CHECLabPy/scripts/extract_dl1.py
+++ b/CHECLabPy/scripts/extract_dl1.py
@@ -16,9 +16,7 @@ from CHECLabPy.calib import TimeCalibrator
 class DL1Writer(HDF5Writer):
     @staticmethod
     def _prepare_before_append(df):
-        df_float = df.select_dtypes(
-            include=['float']
-        ).apply(pd.to_numeric, downcast='float')
+        df_float = df.select_dtypes(include=['float']).astype(np.float32)
         df[df_float.columns] = df_float
         df['iev'] = df['iev'].astype(np.uint32)
         if 'first_cell_id' in df.columns:
-- 
2.43.0


From 3be7d65403693d51dabe3e7e84e9fbd938e10762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:31 +0000
Subject: [PATCH 23/38] fix: plot the charge_resolution column of
 ChargeResolution

ChargeResolution produces no 'rmse' column, its results could not be
plotted.
---
 CHECLabPy/plotting/resolutions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CHECLabPy/plotting/resolutions.py b/CHECLabPy/plotting/resolutions.py
index 3584104..e943939 100644
--- a/CHECLabPy/plotting/resolutions.py
+++ b/CHECLabPy/plotting/resolutions.py
@@ -44,7 +44,7 @@ class ChargeResolutionPlotter(Plotter):
     def plot_pixel(self, pixel, label=''):
         df_pixel = self.df_pixel.loc[self.df_pixel['pixel'] == pixel]
         x = df_pixel['true']
-        y = df_pixel['rmse']
+        y = df_pixel['charge_resolution']
         yerr = 1 / np.sqrt(x)
 
         x, y, yerr = bin_points(x, y, yerr)
@@ -53,7 +53,7 @@ class ChargeResolutionPlotter(Plotter):
 
     def plot_camera(self, label=''):
         x = self.df_camera['true']
-        y = self.df_camera['rmse']
+        y = self.df_camera['charge_resolution']
         yerr = 1 / np.sqrt(x)
 
         x, y, yerr = bin_points(x, y, yerr)
-- 
2.43.0


From a61810a5894afd3568318df3043c9b7a552acd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:00 +0000
Subject: [PATCH 24/38] fix: keep fractional line widths when highlighting
 pixels

An image of integers truncated the default linewidth of 0.5 to 0, i.e.
nothing was highlighted.
---
 CHECLabPy/plotting/camera.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/plotting/camera.py b/CHECLabPy/plotting/camera.py
index b6f8d9d..3f64016 100644
--- a/CHECLabPy/plotting/camera.py
+++ b/CHECLabPy/plotting/camera.py
@@ -209,7 +209,7 @@ class CameraImage(Plotter):
             The transparency
         """
 
-        lw_array = np.zeros_like(self.image)
+        lw_array = np.zeros(self.n_pixels)
         lw_array[pixels] = linewidth
         pixel_highlighting = copy(self.pixels)
         pixel_highlighting.set_facecolor('none')
-- 
2.43.0


From f077beba0155901f09450a21f97962a33627efda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:19 +0000
Subject: [PATCH 25/38] fix: run the NNLS pulse extraction in Python

numba compiles neither these methods nor the active-set solver in nopython
mode (the default since 0.59), so every nnls column failed. Build the ragged
array of pulses as an object array, as numpy 1.24 requires.
---
 CHECLabPy/waveform_reducers/nnls_pulse_extraction.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/CHECLabPy/waveform_reducers/nnls_pulse_extraction.py b/CHECLabPy/waveform_reducers/nnls_pulse_extraction.py
index 2b3ef73..385b86a 100644
--- a/CHECLabPy/waveform_reducers/nnls_pulse_extraction.py
+++ b/CHECLabPy/waveform_reducers/nnls_pulse_extraction.py
@@ -3,7 +3,6 @@ from CHECLabPy.data import get_file
 import numpy as np
 from scipy import interpolate
 from scipy.optimize import nnls
-from numba import jit
 import scipy
 
 
@@ -74,7 +73,6 @@ class NNLSPulseExtraction(WaveformReducer):
         norm = scipy.integrate.quad(pulse_template,0,36*1e-9)
         return pulse_template,norm
         
-    @jit()
     def _pulse_extraction(self, waveforms):
         px_c = list()
         for i, wf in enumerate(waveforms):
@@ -94,9 +92,8 @@ class NNLSPulseExtraction(WaveformReducer):
 
             px_c.append((ptime,pcharge,evt))  
         
-        return np.array(px_c)
+        return np.array(px_c, dtype=object)
     
-    @jit()
     def _merge_pulses(self, charges,times,binwidth=2.e-9):
         if len(charges) == 0:
             return times,charges
@@ -187,7 +184,6 @@ class NNLSPulseExtraction(WaveformReducer):
         return self.errata
 
 
-@jit()
 def nnls(A,b,maxit=None,tolerance=0):
     """A mockup of the Lawson/Hanson active set algorithm
    
-- 
2.43.0


From 0abe0953d70fa0db0b1ee3b35ed5cac31ed6fd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:43 +0000
Subject: [PATCH 26/38] fix: take the event index from the waveforms for dead
 pixels

The readers have no index attribute.
---
 CHECLabPy/utils/waveform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/utils/waveform.py b/CHECLabPy/utils/waveform.py
index 303c46b..987a706 100644
--- a/CHECLabPy/utils/waveform.py
+++ b/CHECLabPy/utils/waveform.py
@@ -174,7 +174,7 @@ def obtain_dead_pixel_list_r1(source, threshold_percent=0.1, max_events=100):
     n_samples = source.n_samples
     array = np.zeros((n_events, n_pixels, n_samples))
     for waveforms in source:
-        iev = source.index
+        iev = waveforms.iev
         if iev >= n_events:
             break
         array[iev] = waveforms
-- 
2.43.0


From ccfe522c1a7251840d982d04ec5cb7d3ba225044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:19 +0000
Subject: [PATCH 27/38] fix: append to a key that only contains metadata

---
 CHECLabPy/core/io/hdf5_appender.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/CHECLabPy/core/io/hdf5_appender.py b/CHECLabPy/core/io/hdf5_appender.py
index 58340c7..5bbf8ec 100644
--- a/CHECLabPy/core/io/hdf5_appender.py
+++ b/CHECLabPy/core/io/hdf5_appender.py
@@ -55,6 +55,20 @@ class HDF5Appender(HDF5Reader, HDF5Writer):
     def __exit__(self, exc_type, exc_val, exc_tb):
         self.finish()
 
+    def _append_to_store(self, key, expectedrows=None):
+        # A key that only contains metadata is stored as an empty DataFrame,
+        # which must be replaced (keeping its metadata) to append to it
+        if self.df_list[key] and key in self.store:
+            storer = self.store.get_storer(key)
+            if not storer.is_table and self.store[key].empty:
+                for name in self.metadata_keys.get(key, []):
+                    self.metadata[key][name] = {
+                        **getattr(storer.attrs, name),
+                        **self.metadata[key][name]
+                    }
+                self.store.remove(key)
+        super()._append_to_store(key, expectedrows)
+
     def _save_metadata(self):
         print("Saving metadata to HDF5 file")
         for key, submeta in self.metadata.items():
-- 
2.43.0


From 495b95b1e00b611940d73ab03301055eb1d49391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:17 +0000
Subject: [PATCH 28/38] fix: do not take the switch of the t_event column as
 event time

---
 CHECLabPy/waveform_reducers/saturation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/CHECLabPy/waveform_reducers/saturation.py b/CHECLabPy/waveform_reducers/saturation.py
index bca2e67..3954ece 100644
--- a/CHECLabPy/waveform_reducers/saturation.py
+++ b/CHECLabPy/waveform_reducers/saturation.py
@@ -18,8 +18,9 @@ class Saturation(WaveformReducer):
         Sum of the waveform samples from the start of the pulse to the end of
         the waveform.
         """
-        if "t_event" in self.kwargs:
-            t_event = self.kwargs['t_event']
+        # Not called t_event, which is the switch of a Timing column
+        if "t_extract" in self.kwargs:
+            t_event = self.kwargs['t_extract']
         else:
             avg = np.mean(self.waveforms, axis=0)
             t_event = np.argmax(avg)
-- 
2.43.0


From 2af5baa00b2fc74123fda6023cb78e27a5066936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:44 +0000
Subject: [PATCH 29/38] fix: do not read beyond the last sample when the pulse
 vertex rounds past it

---
 CHECLabPy/waveform_reducers/timing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/waveform_reducers/timing.py b/CHECLabPy/waveform_reducers/timing.py
index 3343809..55208ca 100644
--- a/CHECLabPy/waveform_reducers/timing.py
+++ b/CHECLabPy/waveform_reducers/timing.py
@@ -43,7 +43,7 @@ def obtain_pulse_timing(waveforms, window_start, window_end):
         h = y1 - 0.25 * (y0 - y2) * t
         h_pulse = h - baseline
         t_pulse = t + peakpos
-        if not 0 <= t_pulse < n_samples:
+        if not 0 <= t_pulse <= n_samples - 1:
             continue
         i_pulse = int(np.round(t_pulse))
 
-- 
2.43.0


From e2afea1f14c439c50c8807ebba58dca5db6cd652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:05 +0000
Subject: [PATCH 30/38] fix: mark calibrated waveforms as R1

---
 CHECLabPy/calib/waveform.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CHECLabPy/calib/waveform.py b/CHECLabPy/calib/waveform.py
index 9043f5d..c34ded4 100644
--- a/CHECLabPy/calib/waveform.py
+++ b/CHECLabPy/calib/waveform.py
@@ -17,6 +17,7 @@ class WaveformCalibrator:
         calibrated_wfs = waveforms.astype(np.float32, copy=True)
         self.calibrator.ApplyEvent(waveforms, fci, calibrated_wfs)
         calibrated_wfs.r1 = True
+        calibrated_wfs.is_r1 = True  # Attribute of Waveform
         return calibrated_wfs
 
     @classmethod
-- 
2.43.0


From b88d2e8bb88f968595e57747bd55edadafa105d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:20 +0000
Subject: [PATCH 31/38] fix: no error estimation (crash in Minuit) if all
 spectrum parameters are fixed

---
 CHECLabPy/core/spectrum_fitter.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/CHECLabPy/core/spectrum_fitter.py b/CHECLabPy/core/spectrum_fitter.py
index 3516c03..f9d7a89 100644
--- a/CHECLabPy/core/spectrum_fitter.py
+++ b/CHECLabPy/core/spectrum_fitter.py
@@ -289,9 +289,10 @@ class SpectrumFitter:
         m0.migrad()
         self.fit_result_values = m0.values
 
-        with warnings.catch_warnings():
-            warnings.simplefilter('ignore', HesseFailedWarning)
-            m0.hesse()
+        if not all(m0.fixed.values()):  # Minuit crashes if nothing is free
+            with warnings.catch_warnings():
+                warnings.simplefilter('ignore', HesseFailedWarning)
+                m0.hesse()
         self.fit_result_errors = m0.errors
 
     def _minimize_function(self, *parameter_values):
-- 
2.43.0


From 629c5b4e85f083de3aeb93d35080f6d917899c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:45 +0000
Subject: [PATCH 32/38] fix: convert all metadata timestamps to nanoseconds in
 ROOT files

---
 CHECLabPy/scripts/convert_hd52root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/scripts/convert_hd52root.py b/CHECLabPy/scripts/convert_hd52root.py
index 9239f95..358918a 100644
--- a/CHECLabPy/scripts/convert_hd52root.py
+++ b/CHECLabPy/scripts/convert_hd52root.py
@@ -78,7 +78,7 @@ if __name__ == "__main__":
     for key in meta:
         print ("\t%s = %s (type=%s)" % (key, str(meta[key]), type(meta[key])))
         if type(meta[key]) == pd._libs.tslib.Timestamp:
-            meta[key] = meta[key].asm8.view(np.int64)
+            meta[key] = np.int64(meta[key].value)
             print("\tTimestamp found, converting to uint64: \t%s = %s (type=%s)" % (key, str(meta[key]), type(meta[key])))
 
     print ("--> Found the following data columns:")
-- 
2.43.0


From a1c268356ea64b47ac1a50e0b915b21fc36aa982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:04 +0000
Subject: [PATCH 33/38] fix: accessing the deprecated monitor keeps the warning
 filters of the user

---
 CHECLabPy/core/io/dl1_reader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CHECLabPy/core/io/dl1_reader.py b/CHECLabPy/core/io/dl1_reader.py
index 34c3a66..9a2ea21 100644
--- a/CHECLabPy/core/io/dl1_reader.py
+++ b/CHECLabPy/core/io/dl1_reader.py
@@ -6,9 +6,9 @@ from CHECLabPy.core.io.hdf5_reader import HDF5Reader
 
 
 def deprecate(msg):
-    warnings.simplefilter('always', DeprecationWarning)  # turn off filter
-    warnings.warn(msg, category=DeprecationWarning, stacklevel=2)
-    warnings.simplefilter('default', DeprecationWarning)  # reset filter
+    with warnings.catch_warnings():  # filters are restored afterwards
+        warnings.simplefilter('always', DeprecationWarning)
+        warnings.warn(msg, category=DeprecationWarning, stacklevel=2)
 
 
 class DL1Reader(HDF5Reader):
-- 
2.43.0


From f349bb991e8f94e91e827f1dc5750a0d1360d6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:28 +0000
Subject: [PATCH 34/38] fix: HDF5Writer keeps a copy of appended dataframes
 until they are stored

---
 CHECLabPy/core/io/hdf5_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/core/io/hdf5_writer.py b/CHECLabPy/core/io/hdf5_writer.py
index 2383f28..54e850a 100644
--- a/CHECLabPy/core/io/hdf5_writer.py
+++ b/CHECLabPy/core/io/hdf5_writer.py
@@ -98,7 +98,7 @@ class HDF5Writer:
             Not required, but can speed up the file filling/generation
         """
         self.keys.add(key)
-        self.df_list[key].append(df)
+        self.df_list[key].append(df.copy())  # may be reused by the caller
         memory_usage = df.memory_usage(index=True, deep=True).sum()
         self.df_list_n_bytes[key] += memory_usage
         if self.df_list_n_bytes[key] >= 0.5E9:
-- 
2.43.0


From 25341368fe066d2b79a12e6544b41d25ba206278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:10 +0000
Subject: [PATCH 35/38] fix: metadata is stored as it was when added to the
 HDF5Writer

---
 CHECLabPy/core/io/hdf5_writer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CHECLabPy/core/io/hdf5_writer.py b/CHECLabPy/core/io/hdf5_writer.py
index 54e850a..e4dad4e 100644
--- a/CHECLabPy/core/io/hdf5_writer.py
+++ b/CHECLabPy/core/io/hdf5_writer.py
@@ -4,6 +4,7 @@ import os
 from CHECLabPy.utils.files import create_directory
 from CHECLabPy import __version__
 from collections import defaultdict
+from copy import deepcopy
 
 
 class HDF5Writer:
@@ -175,7 +176,7 @@ class HDF5Writer:
                 "The name '{}' is reserved, "
                 "please choose a different name".format(name)
             )
-        self.metadata[key][name].update(kwargs)
+        self.metadata[key][name].update(deepcopy(kwargs))
 
     def _save_metadata(self):
         print("Saving metadata to HDF5 file")
-- 
2.43.0


From c1e5aa5eaca4fbe587b4e73fa150720f5fa97a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:13 +0000
Subject: [PATCH 36/38] fix: do not divide by zero in obtain_pulse_timing when
 two samples equal the crossed level

---
 CHECLabPy/waveform_reducers/timing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CHECLabPy/waveform_reducers/timing.py b/CHECLabPy/waveform_reducers/timing.py
index 55208ca..4dbc79c 100644
--- a/CHECLabPy/waveform_reducers/timing.py
+++ b/CHECLabPy/waveform_reducers/timing.py
@@ -64,7 +64,7 @@ def obtain_pulse_timing(waveforms, window_start, window_end):
             xj = xi + 1
             yi = wf[xi]
             yj = wf[xj]
-            if yi >= half_max >= yj:
+            if yi >= half_max >= yj and yi != yj:
                 fwhm_r = xi + (half_max - yi) * (xj - xi) / (yj - yi)
                 break
 
@@ -73,13 +73,13 @@ def obtain_pulse_timing(waveforms, window_start, window_end):
             xj = xi - 1
             yi = wf[xi]
             yj = wf[xj]
-            if yi >= half_max >= yj:
+            if yi >= half_max >= yj and yi != yj:
                 if not fwhm_l:  # Only set on first time
                     fwhm_l = xi + (half_max - yi) * (xj - xi) / (yj - yi)
-            if yi >= _90percent >= yj:
+            if yi >= _90percent >= yj and yi != yj:
                 if not rt_90:  # Only set on first time
                     rt_90 = xi + (_90percent - yi) * (xj - xi) / (yj - yi)
-            if yi >= _10percent >= yj:
+            if yi >= _10percent >= yj and yi != yj:
                 if not rt_10:  # Only set on first time
                     rt_10 = xi + (_10percent - yi) * (xj - xi) / (yj - yi)
             if fwhm_l and rt_90 and rt_10:
-- 
2.43.0


From 2f7488dcc571d7675802f00b5bb993d35ce8a461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:56 +0000
Subject: [PATCH 37/38] fix: find the rows and columns of cameras that are not
 square

---
 CHECLabPy/utils/mapping.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/CHECLabPy/utils/mapping.py b/CHECLabPy/utils/mapping.py
index 9ca40f3..1e39425 100644
--- a/CHECLabPy/utils/mapping.py
+++ b/CHECLabPy/utils/mapping.py
@@ -203,16 +203,14 @@ def get_row_column(pix_x, pix_y):
     hist_xc = np.histogram2d(pix_x, pix_y, bins=[max_ncol, max_nrow])[0]
     hist_yc = np.histogram2d(pix_x, pix_y, bins=[max_ncol, max_nrow])[0]
     # Find row and col with a complete number of pixels along them
-    full_col = np.bincount(hist_x.nonzero()[0]).argmax()
-    full_row = np.bincount(hist_y.nonzero()[0]).argmax()
+    full_col = np.bincount(hist_xc.nonzero()[0]).argmax()
+    full_row = np.bincount(hist_yc.nonzero()[1]).argmax()
     # Obtain coordinates of the pixels along this row and column
-    full_x = hist_x[:, full_col][hist_xc[:, full_col].nonzero()]
-    full_y = hist_y[full_row, :][hist_yc[full_row, :].nonzero()]
+    full_x = hist_x[:, full_row][hist_xc[:, full_row].nonzero()]
+    full_y = hist_y[full_col, :][hist_yc[full_col, :].nonzero()]
 
     # Define pixel bin edges based on full row and column of pixels
-    mid_dist = np.min(
-        np.sqrt((full_x - full_x[0]) ** 2 + (full_y - full_y[0]) ** 2)[1:]
-    ) / 2
+    mid_dist = np.min([*np.diff(full_x), *np.diff(full_y)]) / 2
     edges_x = np.array([*(full_x - mid_dist), full_x[-1] + mid_dist])
     edges_y = np.array([*(full_y - mid_dist), full_y[-1] + mid_dist])
 
-- 
2.43.0


From 69e2f475a01b4e2860880bb63510b92b6a87b46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:00 +0000
Subject: [PATCH 38/38] fix: save the other tables and metadata if a table
 cannot be stored

---
 CHECLabPy/core/io/hdf5_appender.py | 22 +++++++------
 CHECLabPy/core/io/hdf5_writer.py   | 51 +++++++++++++++++++++++-------
 2 files changed, 53 insertions(+), 20 deletions(-)

diff --git a/CHECLabPy/core/io/hdf5_appender.py b/CHECLabPy/core/io/hdf5_appender.py
index 5bbf8ec..cde68d6 100644
--- a/CHECLabPy/core/io/hdf5_appender.py
+++ b/CHECLabPy/core/io/hdf5_appender.py
@@ -88,12 +88,16 @@ class HDF5Appender(HDF5Reader, HDF5Writer):
         the metadata. This is method is automatically called when HDF5Writer
         is used in a context manager (i.e. `with HDF5Writer(path) as writer:`)
         """
-        for key in self.keys:
-            self._append_to_store(key)
-            self.add_metadata(key=key, n_bytes=self.n_bytes[key])
-        self.add_metadata(
-            total_bytes=sum(self.n_bytes.values()),
-            version=__version__,
-        )
-        self._save_metadata()
-        self.store.close()
+        try:
+            errors = self._append_remaining_to_store()
+            for key in self.keys:
+                self.add_metadata(key=key, n_bytes=self.n_bytes[key])
+            self.add_metadata(
+                total_bytes=sum(self.n_bytes.values()),
+                version=__version__,
+            )
+            self._save_metadata()
+        finally:
+            self.store.close()
+        if errors:
+            raise errors[0]
diff --git a/CHECLabPy/core/io/hdf5_writer.py b/CHECLabPy/core/io/hdf5_writer.py
index e4dad4e..e1266e8 100644
--- a/CHECLabPy/core/io/hdf5_writer.py
+++ b/CHECLabPy/core/io/hdf5_writer.py
@@ -72,11 +72,36 @@ class HDF5Writer:
             kwargs = dict(index=False, data_columns=True)
             if expectedrows is not None:
                 kwargs['expectedrows'] = expectedrows
-            self.store.append(key, df, **kwargs)
+            exists = key in self.store
+            try:
+                self.store.append(key, df, **kwargs)
+            except Exception:
+                if not exists and key in self.store:
+                    self.store.remove(key)  # Table that could not be created
+                raise
             self.n_bytes[key] += df.memory_usage(index=True, deep=True).sum()
             self.df_list[key] = []
             self.df_list_n_bytes[key] = 0
 
+    def _append_remaining_to_store(self):
+        """
+        Append the dataframes that are still held in memory to the HDFStore.
+        A table that cannot be stored does not prevent the others from being
+        stored.
+
+        Returns
+        -------
+        errors : list
+            The exceptions raised by the tables that could not be stored
+        """
+        errors = []
+        for key in self.keys:
+            try:
+                self._append_to_store(key)
+            except Exception as e:
+                errors.append(e)
+        return errors
+
     def append(self, df, key='data', expectedrows=None):
         """
         Append a dataframe to the list of dataframes. Each HDFStore
@@ -194,13 +219,17 @@ class HDF5Writer:
         is used in a context manager (i.e. `with HDF5Writer(path) as writer:`)
         """
         total_bytes = 0
-        for key in self.keys:
-            self._append_to_store(key)
-            self.add_metadata(key=key, n_bytes=self.n_bytes[key])
-            total_bytes += self.n_bytes[key]
-        self.add_metadata(
-            total_bytes=total_bytes,
-            version=__version__,
-        )
-        self._save_metadata()
-        self.store.close()
+        try:
+            errors = self._append_remaining_to_store()
+            for key in self.keys:
+                self.add_metadata(key=key, n_bytes=self.n_bytes[key])
+                total_bytes += self.n_bytes[key]
+            self.add_metadata(
+                total_bytes=total_bytes,
+                version=__version__,
+            )
+            self._save_metadata()
+        finally:
+            self.store.close()
+        if errors:
+            raise errors[0]
-- 
2.43.0

