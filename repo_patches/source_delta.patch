From 4ef815c939802092f4c5abaad0d02a66b10017f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:34 +0000
Subject: [PATCH 01/62] fix: remove every atlas line in the requested range

The list was modified while it was iterated over, so the line following a
removed one was never examined.
---
 src/rascal/atlas.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/rascal/atlas.py b/src/rascal/atlas.py
index a352e8d..51745f9 100644
--- a/src/rascal/atlas.py
+++ b/src/rascal/atlas.py
@@ -324,9 +324,11 @@ class Atlas:
 
         """
 
-        for atlas_line in self.atlas_lines:
-            if abs(atlas_line.wavelength - wavelength) < tolerance:
-                self.atlas_lines.remove(atlas_line)
+        self.atlas_lines = [
+            atlas_line
+            for atlas_line in self.atlas_lines
+            if not abs(atlas_line.wavelength - wavelength) < tolerance
+        ]
 
     def list(self):
         """
-- 
2.43.0


From 44d46d4d41b0b9480573c0bfe68191801f23c746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:34 +0000
Subject: [PATCH 02/62] fix: keep lines in wavelength order when selecting the
 brightest ones

The separation filter compares neighbouring entries, but was handed lines
sorted by intensity, so close lines were kept and distant ones removed.
---
 src/rascal/util.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index ac340b0..acd0077 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -397,9 +397,11 @@ def load_calibration_lines(
     intensity_list = lines[:, 2][intensity_mask].astype("float64")
 
     if brightest_n_lines is not None:
-        to_keep = np.argsort(np.array(intensity_list))[::-1][
-            :brightest_n_lines
-        ]
+        # Keep the lines in ascending wavelength, as the separation filter
+        # compares neighbouring lines
+        to_keep = np.sort(
+            np.argsort(np.array(intensity_list))[::-1][:brightest_n_lines]
+        )
         element_list = element_list[to_keep]
         intensity_list = intensity_list[to_keep]
         wavelength_list = wavelength_list[to_keep]
-- 
2.43.0


From 4cf0f68f74496ba6c5595a0e95f6f80f4d087d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:34 +0000
Subject: [PATCH 03/62] fix: separation filter with fewer than two lines

An empty list raised an IndexError and a single line was removed for being
too close to itself.
---
 src/rascal/util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index acd0077..8a6bcc6 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -215,6 +215,10 @@ def filter_separation(wavelengths, min_separation=0):
 
     """
 
+    # A line without any neighbour is always sufficiently separated
+    if len(wavelengths) < 2:
+        return np.ones(len(wavelengths), dtype=bool)
+
     left_dists = np.zeros_like(wavelengths)
     left_dists[1:] = wavelengths[1:] - wavelengths[:-1]
 
-- 
2.43.0


From cc647155eb2356bda36b90c4ae7006dc2ebd0421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:34 +0000
Subject: [PATCH 04/62] fix: accept a single line in add_user_atlas, as
 documented

---
 src/rascal/atlas.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/rascal/atlas.py b/src/rascal/atlas.py
index 51745f9..c4bed70 100644
--- a/src/rascal/atlas.py
+++ b/src/rascal/atlas.py
@@ -246,6 +246,16 @@ class Atlas:
 
         """
 
+        # A single line can be given as a string and a number
+        if isinstance(elements, str):
+            elements = [elements]
+
+        if np.ndim(wavelengths) == 0:
+            wavelengths = [wavelengths]
+
+        if intensities is not None and np.ndim(intensities) == 0:
+            intensities = [intensities]
+
         if not isinstance(elements, list):
             elements = list(elements)
 
-- 
2.43.0


From e741772d320e82a44193b7b7500d80b6592ef592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:34 +0000
Subject: [PATCH 05/62] fix: match chemical symbols case insensitively, as
 documented

---
 src/rascal/util.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index 8a6bcc6..6115012 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -253,13 +253,13 @@ def filter_intensity(elements, lines, min_intensity=None):
         min_intensity_dict = {}
 
         for i, e in enumerate(elements):
-            min_intensity_dict[e] = 0.0
+            min_intensity_dict[str(e).lower()] = 0.0
 
     elif isinstance(min_intensity, (int, float)):
         min_intensity_dict = {}
 
         for i, e in enumerate(elements):
-            min_intensity_dict[e] = float(min_intensity)
+            min_intensity_dict[str(e).lower()] = float(min_intensity)
 
     elif isinstance(min_intensity, (list, np.ndarray)):
         assert len(min_intensity) == len(elements), (
@@ -271,7 +271,7 @@ def filter_intensity(elements, lines, min_intensity=None):
         min_intensity_dict = {}
 
         for i, e in enumerate(elements):
-            min_intensity_dict[e] = min_intensity[i]
+            min_intensity_dict[str(e).lower()] = min_intensity[i]
 
     else:
         raise ValueError(
@@ -283,7 +283,7 @@ def filter_intensity(elements, lines, min_intensity=None):
     out = []
 
     for line in lines:
-        element = line[0]
+        element = str(line[0]).lower()
         intensity = float(line[2])
 
         if intensity >= min_intensity_dict[element]:
@@ -372,8 +372,9 @@ def load_calibration_lines(
     else:
         raise ValueError("Please provide a valid format of line list.")
 
-    # Mask elements
-    mask = [(li[0] in elements) for li in lines]
+    # Mask elements, the chemical symbols are case insensitive
+    elements_lower = [str(e).lower() for e in elements]
+    mask = [(li[0].lower() in elements_lower) for li in lines]
     lines = lines[mask]
 
     # update the wavelength limit
-- 
2.43.0


From b62516faf891a8d4f12d969e1a2b90e3d78d8ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:34 +0000
Subject: [PATCH 06/62] fix: load a line list file that holds a single line

---
 src/rascal/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index 6115012..afbb9d9 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -364,7 +364,9 @@ def load_calibration_lines(
             )
             lines = np.loadtxt(file_path, delimiter=",", dtype=">U12")
         elif os.path.exists(linelist):
-            lines = np.loadtxt(linelist, delimiter=",", dtype=">U12")
+            lines = np.loadtxt(
+                linelist, delimiter=",", dtype=">U12", ndmin=2
+            )
         else:
             raise ValueError(
                 f"Unknown string is provided as linelist: {linelist}."
-- 
2.43.0


From 6e648dd02b19b829a11faa66e9ce8169082844f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:34 +0000
Subject: [PATCH 07/62] fix: apply a minimum intensity given as a numpy number

The intensity filter was silently skipped for numpy integers.
---
 src/rascal/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index afbb9d9..67f0b9e 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -255,7 +255,7 @@ def filter_intensity(elements, lines, min_intensity=None):
         for i, e in enumerate(elements):
             min_intensity_dict[str(e).lower()] = 0.0
 
-    elif isinstance(min_intensity, (int, float)):
+    elif isinstance(min_intensity, (int, float, np.number)):
         min_intensity_dict = {}
 
         for i, e in enumerate(elements):
@@ -394,7 +394,7 @@ def load_calibration_lines(
     )
 
     # Filter intensities
-    if isinstance(min_intensity, (float, int, list, np.ndarray)):
+    if isinstance(min_intensity, (float, int, np.number, list, np.ndarray)):
         intensity_mask = filter_intensity(elements, lines, min_intensity)
     else:
         intensity_mask = np.ones_like(lines[:, 0]).astype(bool)
-- 
2.43.0


From e7a32251055cab1f0ace314b0ce49965d33e9d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:34 +0000
Subject: [PATCH 08/62] fix: evaluate the saturation vapour pressure at the
 temperature in Kelvin

The temperature in Celcius was used in an equation for Kelvin, which gave
110 Pa instead of 2339 Pa at 20 degrees.
---
 src/rascal/util.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index 67f0b9e..5f527f4 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -8,7 +8,16 @@ import pkg_resources
 def get_vapour_pressure(temperature):
     """
     Appendix A.I of https://emtoolbox.nist.gov/Wavelength/Documentation.asp
+
+    Parameters
+    ----------
+    temperature: float
+        In unit of Celcius
+
     """
+    # The equation is in terms of the temperature in Kelvin
+    T = temperature + 273.15
+
     K1 = 1.16705214528e03
     K2 = -7.24213167032e05
     K3 = -1.70738469401e01
@@ -19,7 +28,7 @@ def get_vapour_pressure(temperature):
     K8 = 4.05113405421e05
     K9 = -2.38555575678e-01
     K10 = 6.50175348448e02
-    omega = temperature + K9 / (temperature - K10)
+    omega = T + K9 / (T - K10)
     A = omega**2.0 + K1 * omega + K2
     B = K3 * omega**2.0 + K4 * omega + K5
     C = K6 * omega**2.0 + K7 * omega + K8
-- 
2.43.0


From 0bf66fa80022112a414abde610c6e537a925f0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:01 +0000
Subject: [PATCH 09/62] fix: normalise and order the initial coefficients of
 robust_polyfit

The initial coefficients, lowest order first, were handed to a cost function
that takes the highest order first, and were scaled incompletely. The
optimiser then stopped thousands of Angstroms away from the solution, e.g. in
manual_refit() with its default arguments.
---
 src/rascal/models.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/rascal/models.py b/src/rascal/models.py
index 68aff03..317f119 100644
--- a/src/rascal/models.py
+++ b/src/rascal/models.py
@@ -1,4 +1,3 @@
-import copy
 import scipy.optimize
 import numpy as np
 
@@ -95,13 +94,13 @@ def robust_polyfit(x, y, degree=3, x0=None):
 
     x_n, y_n = normalise_input(x, y)
 
-    p_init = copy.copy(x0)
-    # Need to normalise the fit function too
-    if p_init is not None:
-        for i in range(0, degree):
-            p_init[i] *= x.std() ** i
-
+    # Need to normalise the initial coefficients too
+    if x0 is not None:
+        p_init = np.array(x0, dtype=float)
+        p_init *= x.std() ** np.arange(degree + 1)
         p_init /= y.std()
+        # x0 is lowest order first, the cost function takes the highest first
+        p_init = p_init[::-1]
     else:
         p_init = np.ones(degree + 1)
 
-- 
2.43.0


From cfe1a52fa3391983a04e2fadb8aba64c3c8d8c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:01 +0000
Subject: [PATCH 10/62] fix: refine_peaks window handling

The windows were normalised in place, which corrupted the windows of the
following peaks and failed for integer spectra, and the position in the window
was added to the wrong origin for peaks near the first pixel and for
non-integer initial positions.
---
 src/rascal/util.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index 5f527f4..df9df03 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -498,12 +498,9 @@ def refine_peaks(spectrum, peaks, window_width=10, distance=None):
     length = len(spectrum)
 
     for peak in peaks:
-        y = spectrum[
-            max(0, int(peak) - window_width) : min(
-                int(peak) + window_width, length
-            )
-        ]
-        y /= np.nanmax(y)
+        start = max(0, int(peak) - window_width)
+        y = spectrum[start : min(int(peak) + window_width, length)]
+        y = y / np.nanmax(y)
         x = np.arange(len(y))
 
         mask = np.isfinite(y) & ~np.isnan(y)
@@ -525,7 +522,7 @@ def refine_peaks(spectrum, peaks, window_width=10, distance=None):
             if centre > len(spectrum) or centre < 0:
                 continue
 
-            refined_peaks.append(peak - window_width + centre)
+            refined_peaks.append(start + centre)
 
         except RuntimeError:
             continue
-- 
2.43.0


From d5ccfd0311a1de0b8a333e2f32c644bb77cd087d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:01 +0000
Subject: [PATCH 11/62] fix: ignore bad pixels when estimating the initial peak
 position

A single NaN in the window made the initial guess NaN and lost the peak.
---
 src/rascal/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index df9df03..d5eccb9 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -509,8 +509,8 @@ def refine_peaks(spectrum, peaks, window_width=10, distance=None):
         if n == 0:
             continue
 
-        mean = np.sum(x * y) / n
-        sigma = np.sum(y * (x - mean) ** 2) / n
+        mean = np.sum(x[mask] * y[mask]) / n
+        sigma = np.sum(y[mask] * (x[mask] - mean) ** 2) / n
 
         try:
             popt, _ = curve_fit(gauss, x[mask], y[mask], p0=[1, mean, sigma])
-- 
2.43.0


From e52f1a9636dd2416cf75318fa655918d7eb2ff7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:28 +0000
Subject: [PATCH 12/62] fix: return a unique set of refined peaks, as
 documented

Duplicates were only removed if they came from consecutive initial positions,
and an input without any fitted peak failed.
---
 src/rascal/util.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index d5eccb9..a210a29 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -530,10 +530,15 @@ def refine_peaks(spectrum, peaks, window_width=10, distance=None):
     refined_peaks = np.array(refined_peaks)
     mask = (refined_peaks > 0) & (refined_peaks < len(spectrum))
 
-    # Remove peaks that are within rounding errors from each other from the
-    # curve_fit
-    distance_mask = np.isclose(refined_peaks[:-1], refined_peaks[1:])
-    distance_mask = np.insert(distance_mask, 0, False)
+    # Remove peaks that are within rounding errors from any previous one from
+    # the curve_fit
+    distance_mask = np.array(
+        [
+            np.isclose(refined_peaks[:i], refined_peaks[i]).any()
+            for i in range(len(refined_peaks))
+        ],
+        dtype=bool,
+    )
 
     return refined_peaks[mask & ~distance_mask]
 
-- 
2.43.0


From 8118c9b4243c1a1209d6c9a1113153e8038bf620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:28 +0000
Subject: [PATCH 13/62] fix: make a loaded Hough transform usable

The Hough lines were not restored from the loaded histogram, and the
calibrator did not take over what was loaded, so fit() always computed the
transform again.
---
 src/rascal/calibrator.py     |  2 ++
 src/rascal/houghtransform.py | 10 ++++++++++
 2 files changed, 12 insertions(+)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 0673c22..cdbccfe 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -1503,6 +1503,8 @@ class Calibrator:
         """
 
         self.ht.load(filename=filename, filetype=filetype)
+        self.hough_points = self.ht.hough_points
+        self.hough_lines = self.ht.hough_lines
 
     def set_known_pairs(self, pix=(), wave=()):
         """
diff --git a/src/rascal/houghtransform.py b/src/rascal/houghtransform.py
index 41a2699..d5c3630 100644
--- a/src/rascal/houghtransform.py
+++ b/src/rascal/houghtransform.py
@@ -186,6 +186,14 @@ class HoughTransform:
             bins=(xbins, ybins),
         )
 
+        self._rank_bins()
+
+    def _rank_bins(self):
+        """
+        Get the Hough lines from the histogram, the most promising bin first.
+
+        """
+
         # Get the line fit_coeffients from the promising bins in the
         # histogram
         self.hist_sorted_arg = np.dstack(
@@ -337,3 +345,5 @@ class HoughTransform:
             raise ValueError(
                 "Unknown filetype %s, it has to be npy or json" % filetype
             )
+
+        self._rank_bins()
-- 
2.43.0


From f475406db517ff4b335b274b19c0cae9f419990e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:28 +0000
Subject: [PATCH 14/62] fix: load the Hough points from json as an array

---
 src/rascal/houghtransform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rascal/houghtransform.py b/src/rascal/houghtransform.py
index d5c3630..8c0eb4c 100644
--- a/src/rascal/houghtransform.py
+++ b/src/rascal/houghtransform.py
@@ -332,7 +332,7 @@ class HoughTransform:
 
             input_json = json.load(open(filename))
 
-            self.hough_points = input_json["hough_points"]
+            self.hough_points = np.array(input_json["hough_points"])
             self.hist = np.array(input_json["hist"]).astype("float")
             self.xedges = np.array(input_json["xedges"]).astype("float")
             self.yedges = np.array(input_json["yedges"]).astype("float")
-- 
2.43.0


From cd8bc6578b2a4ae87b18c029350f6cc7acab8671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:28 +0000
Subject: [PATCH 15/62] fix: return the Hough transform from
 save_hough_transform(to_disk=False)

---
 src/rascal/calibrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index cdbccfe..22cdb96 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -1480,7 +1480,7 @@ class Calibrator:
 
         """
 
-        self.ht.save(
+        return self.ht.save(
             filename=filename,
             fileformat=fileformat,
             delimiter=delimiter,
-- 
2.43.0


From 3e63aeb4a64d0d806e06daa5313d18aa823841c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:54 +0000
Subject: [PATCH 16/62] fix: save and load a Hough transform that is not binned

The documented raw Hough pairs could not be stored without the histogram, nor
constraints given as numpy numbers.
---
 src/rascal/houghtransform.py | 72 +++++++++++++++++++++++-------------
 1 file changed, 46 insertions(+), 26 deletions(-)

diff --git a/src/rascal/houghtransform.py b/src/rascal/houghtransform.py
index 8c0eb4c..e16b2f7 100644
--- a/src/rascal/houghtransform.py
+++ b/src/rascal/houghtransform.py
@@ -2,6 +2,14 @@ import numpy as np
 import json
 
 
+def _to_array(value):
+    return None if value is None else np.array(value, dtype="float")
+
+
+def _to_float(value):
+    return None if value is None else float(value)
+
+
 class HoughTransform:
     """
     This handles the hough transform operations on the pixel-wavelength space.
@@ -266,14 +274,19 @@ class HoughTransform:
         if "json" in fileformat_split:
             output_json = {}
 
-            output_json["hough_points"] = self.hough_points.tolist()
-            output_json["hist"] = self.hist.tolist()
-            output_json["xedges"] = self.xedges.tolist()
-            output_json["yedges"] = self.yedges.tolist()
-            output_json["min_slope"] = self.min_slope
-            output_json["max_slope"] = self.max_slope
-            output_json["min_intercept"] = self.min_intercept
-            output_json["max_intercept"] = self.max_intercept
+            # tolist() also turns numpy scalars into serialisable numbers, and
+            # None, i.e. what is not available (yet), remains None
+            for key in (
+                "hough_points",
+                "hist",
+                "xedges",
+                "yedges",
+                "min_slope",
+                "max_slope",
+                "min_intercept",
+                "max_intercept",
+            ):
+                output_json[key] = np.array(getattr(self, key)).tolist()
 
             if to_disk:
                 with open(filename + ".json", "w+") as f:
@@ -317,33 +330,40 @@ class HoughTransform:
 
             input_npy = np.load(filename, allow_pickle=True)
 
-            self.hough_points = input_npy[0]
-            self.hist = input_npy[1].astype("float")
-            self.xedges = input_npy[2].astype("float")
-            self.yedges = input_npy[3].astype("float")
-            self.min_slope = float(input_npy[4][0])
-            self.max_slope = float(input_npy[5][0])
-            self.min_intercept = float(input_npy[6][0])
-            self.max_intercept = float(input_npy[7][0])
+            self.hough_points = _to_array(input_npy[0])
+            self.hist = _to_array(input_npy[1])
+            self.xedges = _to_array(input_npy[2])
+            self.yedges = _to_array(input_npy[3])
+            self.min_slope = _to_float(input_npy[4][0])
+            self.max_slope = _to_float(input_npy[5][0])
+            self.min_intercept = _to_float(input_npy[6][0])
+            self.max_intercept = _to_float(input_npy[7][0])
 
         elif filetype == "json":
             if filename[-5:] != ".json":
                 filename += ".json"
 
-            input_json = json.load(open(filename))
+            with open(filename) as f:
+                input_json = json.load(f)
 
-            self.hough_points = np.array(input_json["hough_points"])
-            self.hist = np.array(input_json["hist"]).astype("float")
-            self.xedges = np.array(input_json["xedges"]).astype("float")
-            self.yedges = np.array(input_json["yedges"]).astype("float")
-            self.min_slope = float(input_json["min_slope"])
-            self.max_slope = float(input_json["max_slope"])
-            self.min_intercept = float(input_json["min_intercept"])
-            self.max_intercept = float(input_json["max_intercept"])
+            self.hough_points = _to_array(input_json["hough_points"])
+            if self.hough_points is not None:
+                self.hough_points = self.hough_points.reshape(-1, 2)
+            self.hist = _to_array(input_json["hist"])
+            self.xedges = _to_array(input_json["xedges"])
+            self.yedges = _to_array(input_json["yedges"])
+            self.min_slope = _to_float(input_json["min_slope"])
+            self.max_slope = _to_float(input_json["max_slope"])
+            self.min_intercept = _to_float(input_json["min_intercept"])
+            self.max_intercept = _to_float(input_json["max_intercept"])
 
         else:
             raise ValueError(
                 "Unknown filetype %s, it has to be npy or json" % filetype
             )
 
-        self._rank_bins()
+        if self.hist is not None:
+            self._rank_bins()
+
+        else:
+            self.hough_lines = None
-- 
2.43.0


From 42e3b6936cd4c4151e2a2c771a9ef5c1277410b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:28 +0000
Subject: [PATCH 17/62] fix: insert an added pixel-wavelength pair in pixel
 order

The pair was always inserted at the first position, a pixel below all the
matched ones raised an IndexError, and so did a list with a TypeError, which
is what fit() leaves.
---
 src/rascal/calibrator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 22cdb96..6570c8b 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -1999,7 +1999,9 @@ class Calibrator:
 
         """
 
-        arg = np.argwhere(pix > self.matched_peaks)[0]
+        # Insert in front of the first matched peak at a larger pixel
+        larger = np.asarray(self.matched_peaks) > pix
+        arg = np.argmax(larger) if larger.any() else len(larger)
 
         # Only update the lists if both can be inserted
         matched_peaks = np.insert(self.matched_peaks, arg, pix)
-- 
2.43.0


From 2c1ba2174969b0fc45ea6cda9876a6cdf0f839ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:28 +0000
Subject: [PATCH 18/62] fix: size the samples by the degree of the supplied
 coefficients

If fit_coeff is supplied the degree is taken from it, but the sample size was
adjusted to the fit_deg argument, so that samples could be underdetermined.
---
 src/rascal/calibrator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 6570c8b..4f63b9e 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -1647,8 +1647,8 @@ class Calibrator:
             )
             self.sample_size = len(self.atlas)
 
-        if self.sample_size <= fit_deg:
-            self.sample_size = fit_deg + 1
+        if self.sample_size <= self.fit_deg:
+            self.sample_size = self.fit_deg + 1
 
         if (self.hough_lines is None) or (self.hough_points is None):
             self.do_hough_transform()
-- 
2.43.0


From ac082c6bc4c301ad29d8d91440638d1ae0b10f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:28 +0000
Subject: [PATCH 19/62] fix: update the pairs when lines are removed through
 the calibrator

fit() kept matching peaks to the removed lines.
---
 src/rascal/calibrator.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 4f63b9e..6bdc05f 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -105,7 +105,10 @@ class Calibrator:
             for pair in itertools.product(self.peaks, self.atlas.get_lines())
         ]
 
-        if self.constrain_poly:
+        if len(pairs) == 0:
+            self.pairs = np.empty((0, 2))
+
+        elif self.constrain_poly:
             # Remove pairs outside polygon
             valid_area = Delaunay(
                 [
@@ -1346,6 +1349,7 @@ class Calibrator:
         """
 
         self.atlas.remove_atlas_lines_range(wavelength, tolerance)
+        self._generate_pairs()
 
     def list_atlas(self):
         """
@@ -1360,6 +1364,7 @@ class Calibrator:
         """
 
         self.atlas.clear()
+        self._generate_pairs()
 
     def add_user_atlas(
         self,
-- 
2.43.0


From 82e4226c666caa23fc329e8cb9d752d81ff4a445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:28 +0000
Subject: [PATCH 20/62] fix: remember the library chosen by use_plotly and
 use_matplotlib

The next call of set_calibrator_properties switched back to the previous one.
---
 src/rascal/calibrator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 6bdc05f..38cd6c5 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -847,6 +847,7 @@ class Calibrator:
 
         """
 
+        self.plotting_library = "matplotlib"
         self.plot_with_matplotlib = True
         self.plot_with_plotly = False
 
@@ -856,6 +857,7 @@ class Calibrator:
 
         """
 
+        self.plotting_library = "plotly"
         self.plot_with_plotly = True
         self.plot_with_matplotlib = False
 
-- 
2.43.0


From 1ee83c3fdfa7987ca33ac4ecec3e1f5da6a79eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:20 +0000
Subject: [PATCH 21/62] fix: look up the line density in the bin the peak was
 counted in

A peak on a bin edge was counted in one bin and looked up in the one before,
which is empty for e.g. equally spaced integer peaks: the sampling probability
became NaN and fit() raised a ValueError.
---
 src/rascal/calibrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 38cd6c5..52e22f9 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -522,7 +522,7 @@ class Calibrator:
             # weight the probability of choosing the sample by the inverse
             # line density
             h = np.histogram(peaks, bins=10)
-            prob = 1.0 / h[0][np.digitize(peaks, h[1], right=True) - 1]
+            prob = 1.0 / h[0][np.digitize(peaks, h[1][1:-1])]
             prob = prob / np.sum(prob)
 
         for sample in sampler_list:
-- 
2.43.0


From fc42952b106f5149425796dbcd3184076e657f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:20 +0000
Subject: [PATCH 22/62] fix: compare every peak to every line for the
 polynomial candidates

The i-th peak was compared to the i-th line only, and fit() with linear=False
failed unless there were as many peaks as lines.
---
 src/rascal/calibrator.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 52e22f9..0eac80d 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -295,6 +295,7 @@ class Calibrator:
 
         # actual wavelengths
         actual = np.array(self.atlas.get_lines())
+        peaks = np.asarray(self.peaks)
 
         n = len(self.hough_lines)
 
@@ -305,17 +306,16 @@ class Calibrator:
 
         for d in delta:
             # predicted wavelength
-            predicted = self.polyval(self.peaks, self.fit_coeff) + d
-            diff = np.abs(actual - predicted)
-            mask = diff < candidate_tolerance
+            predicted = self.polyval(peaks, self.fit_coeff) + d
+            # compare every peak to every line
+            diff = np.abs(actual[np.newaxis, :] - predicted[:, np.newaxis])
+            i, j = np.where(diff < candidate_tolerance)
 
-            if np.sum(mask) > 0:
+            if len(i) > 0:
                 weight = gauss(
-                    actual[mask], 1.0, predicted[mask], self.range_tolerance
-                )
-                self.candidates.append(
-                    [self.peaks[mask], actual[mask], weight]
+                    actual[j], 1.0, predicted[i], self.range_tolerance
                 )
+                self.candidates.append([peaks[i], actual[j], weight])
 
     def _match_bijective(self, candidates, peaks, fit_coeff):
         """
-- 
2.43.0


From 0a48c9bb24fe1ed5e9c7b1f4144dd1ac93dac5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:51 +0000
Subject: [PATCH 23/62] fix: do not truncate the candidate weights to the type
 of the wavelengths

With integer peaks and wavelengths the weights were truncated to integers.
---
 src/rascal/calibrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 0eac80d..1b28e2a 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -207,7 +207,7 @@ class Calibrator:
                 )
 
                 unique_wavelengths = np.unique(wavelengths_matched)
-                aggregated_count = np.zeros_like(unique_wavelengths)
+                aggregated_count = np.zeros(len(unique_wavelengths))
                 for j, w in enumerate(unique_wavelengths):
                     idx_j = np.where(wavelengths_matched == w)
                     aggregated_count[j] = np.sum(counts[idx_j])
-- 
2.43.0


From 392915f098df8b4a530a7416d14057e003d6a390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:19 +0000
Subject: [PATCH 24/62] fix: bound the work done by fit()

Rejected samples were drawn again without a limit, so that fit() never
returned for e.g. noiseless data or an unsatisfiable number of matches. With no
more peaks than the sample size, max_tries was ignored in favour of as many
tries as there are combinations. A brute force fit raised an exception, would
have tested a rejected combination endlessly, and changed the sample size of
later fits.
---
 src/rascal/calibrator.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 1b28e2a..9523327 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -471,16 +471,19 @@ class Calibrator:
         if len(np.unique(x)) <= self.fit_deg:
             return (best_p, best_err, sum(best_mask), 0, False)
 
-        # Brute force check all combinations. If the request sample_size is
-        # the same or larger than the available lines, it is essentially a
-        # brute force.
-        if brute_force or (self.sample_size >= len(np.unique(x))):
+        # No more peaks than available can be sampled
+        self.sample_size = min(self.sample_size, len(np.unique(x)))
+
+        # Brute force check all combinations.
+        if brute_force:
             idx = range(len(x))
             sampler = itertools.combinations(idx, self.sample_size)
-            self.sample_size = len(np.unique(x))
+            max_draws = np.inf
 
         else:
             sampler = range(int(max_tries))
+            # Rejected samples are drawn again, but not endlessly
+            max_draws = 1000 * int(max_tries)
 
         if progress:
             sampler_list = tqdm(sampler)
@@ -525,16 +528,21 @@ class Calibrator:
             prob = 1.0 / h[0][np.digitize(peaks, h[1][1:-1])]
             prob = prob / np.sum(prob)
 
+        n_draws = 0
+
         for sample in sampler_list:
             keep_trying = True
             self.logger.debug(sample)
 
-            while keep_trying:
+            while keep_trying and n_draws < max_draws:
                 stop_n_candidateow = False
+                n_draws += 1
 
                 if brute_force:
-                    x_hat = x[[sample]]
-                    y_hat = y[[sample]]
+                    x_hat = x[list(sample)]
+                    y_hat = y[list(sample)]
+                    # There is nothing to be drawn again
+                    keep_trying = False
 
                 else:
                     # Pick some random peaks
@@ -678,7 +686,8 @@ class Calibrator:
                         self.logger.debug(
                             "Fit error too small, " "{:1.2f}.".format(best_err)
                         )
-
+                        # Noiseless data would be rejected again and again
+                        keep_trying = False
                         continue
 
                     # Check that we have enough inliers based on user specified
-- 
2.43.0


From c197f9581b7d8edf56e1bce71c44f9f4c0ebe22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:54 +0000
Subject: [PATCH 25/62] fix: keep the supplied solution if no fit outperforms
 it, as documented

The cost of fit_coeff was not comparable to that of the samples, so that any
sample was preferred, and fit_coeff was never returned.
---
 src/rascal/calibrator.py | 62 ++++++++++++++++++++++++----------------
 1 file changed, 37 insertions(+), 25 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 9523327..ab04276 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -514,11 +514,43 @@ class Calibrator:
         else:
             twoditp = None
 
-        # Calculate initial error given pre-existing fit
+        def get_cost(err, fit_coeffs):
+            # use the Hough space density as weights for the cost function
+            wave = self.polyval(self.pixel_list, fit_coeffs)
+            gradient = self.polyval(self.pixel_list, _derivative(fit_coeffs))
+            intercept = wave - gradient * self.pixel_list
+
+            # modified cost function weighted by the Hough space density
+            if (self.hough_weight is not None) & (twoditp is not None):
+                weight = self.hough_weight * np.sum(
+                    twoditp(intercept, gradient, grid=False)
+                )
+
+            else:
+                weight = 1.0
+
+            return (
+                sum(err) / (len(err) - len(fit_coeffs) + 1) / (weight + 1e-9)
+            )
+
+        # A pre-existing fit is the solution to be outperformed
         if fit_coeff is not None:
-            err, _, _ = self._match_bijective(candidates, peaks, fit_coeff)
-            best_cost = sum(err)
-            best_err = np.sqrt(np.mean(err**2.0))
+            err, matched_x, matched_y = self._match_bijective(
+                candidates, peaks, fit_coeff
+            )
+            mask = err < self.ransac_tolerance
+
+            if sum(mask) > self.fit_deg:
+                err[~mask] = self.ransac_tolerance
+                best_cost = get_cost(err, fit_coeff)
+                best_inliers = sum(mask)
+                best_p = np.array(fit_coeff, dtype=float)
+                self.matched_peaks = list(matched_x[mask])
+                self.matched_atlas = list(matched_y[mask])
+                best_residual = (
+                    self.polyval(matched_x[mask], best_p) - matched_y[mask]
+                )
+                best_err = np.sqrt(np.mean(best_residual**2.0))
 
         # The histogram is fixed, so pre-computed outside the loop
         if not brute_force:
@@ -621,27 +653,7 @@ class Calibrator:
                 # M-SAC Estimator (Torr and Zisserman, 1996)
                 err[err > self.ransac_tolerance] = self.ransac_tolerance
 
-                # use the Hough space density as weights for the cost function
-                wave = self.polyval(self.pixel_list, fit_coeffs)
-                gradient = self.polyval(
-                    self.pixel_list, _derivative(fit_coeffs)
-                )
-                intercept = wave - gradient * self.pixel_list
-
-                # modified cost function weighted by the Hough space density
-                if (self.hough_weight is not None) & (twoditp is not None):
-                    weight = self.hough_weight * np.sum(
-                        twoditp(intercept, gradient, grid=False)
-                    )
-
-                else:
-                    weight = 1.0
-
-                cost = (
-                    sum(err)
-                    / (len(err) - len(fit_coeffs) + 1)
-                    / (weight + 1e-9)
-                )
+                cost = get_cost(err, fit_coeffs)
 
                 # If this is potentially a new best fit, then handle that first
                 if cost <= best_cost:
-- 
2.43.0


From 17b731a0a15a35c2456e798bf6ef7266a594fd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:33 +0000
Subject: [PATCH 26/62] fix: match_peaks with several lines within tolerance or
 without refit

The permutations of the possible matches could not be handled and raised a
TypeError, the mode without any refit raised an UnboundLocalError, and the
residuals were not those of the returned solution.
---
 src/rascal/calibrator.py | 102 +++++++++------------------------------
 1 file changed, 23 insertions(+), 79 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index ab04276..2ed2a33 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -1850,91 +1850,35 @@ class Calibrator:
                 )
                 return fit_coeff, None, None, None, None, None, None
 
-        matched_peaks = []
-        matched_atlas = []
-        residuals = []
+        if not refine:
+            fit_coeff_new = fit_coeff
 
-        atlas_lines = self.atlas.get_lines()
-
-        # Find all Atlas peaks within tolerance
-        for p in self.peaks:
-            x = self.polyval(p, fit_coeff)
-            diff = atlas_lines - x
-            diff_abs = np.abs(diff) < tolerance
-
-            if diff_abs.any():
-                matched_peaks.append(p)
-                matched_atlas.append(list(np.asarray(atlas_lines)[diff_abs]))
-                residuals.append(diff_abs)
-
-        # Create permutations:
-        candidates = [[]]
-
-        # match is a list
-        for match in matched_atlas:
-            if len(match) == 0:
-                continue
-
-            self.logger.info("matched: {}".format(match))
-
-            new_candidates = []
-            # i is an int
-            # candidates is a list of list
-
-            for i in range(len(candidates)):
-                # c is a list
-                c = candidates[i]
-
-                if len(match) == 1:
-                    c.extend(match)
-
-                else:
-                    # rep is a list of tuple
-                    rep = ~np.in1d(match, c)
-
-                    if rep.any():
-                        for j in np.argwhere(rep):
-                            new_c = c + [match[j]]
-                            new_candidates.append(new_c)
-
-                # Only add if new_candidates is not an empty list
-                if new_candidates != []:
-                    if candidates[0] == []:
-                        candidates[0] = new_candidates
-
-                    else:
-                        candidates.append(new_candidates)
-
-        if len(candidates) > 1:
-            self.logger.info(
-                "More than one match solution found, checking permutations."
-            )
-
-        self.matched_peaks = np.array(copy.deepcopy(matched_peaks))
-
-        # Check all candidates
-        best_err = 1e9
-        self.matched_atlas = None
-        self.residuals = None
-
-        for candidate in candidates:
-            matched_atlas = np.array(candidate)
+        peaks = np.asarray(self.peaks)
+        atlas_lines = np.unique(self.atlas.get_lines())
 
-            fit_coeff = self.polyfit(matched_peaks, matched_atlas, fit_deg)
+        # Find all Atlas lines within tolerance of each peak
+        diff = np.abs(
+            atlas_lines[np.newaxis, :]
+            - self.polyval(peaks, fit_coeff)[:, np.newaxis]
+        )
+        peak_idx, line_idx = np.where(diff < tolerance)
 
-            x = self.polyval(matched_peaks, fit_coeff)
-            residuals = np.abs(matched_atlas - x)
-            err = np.sum(residuals)
+        # Match them one-to-one, the closest ones first
+        match = {}
 
-            if err < best_err:
-                self.matched_atlas = matched_atlas
-                self.residuals = residuals
+        for k in np.argsort(diff[peak_idx, line_idx], kind="stable"):
+            i, j = peak_idx[k], line_idx[k]
 
-                best_err = err
+            if (i not in match) and (j not in match.values()):
+                match[i] = j
 
-        assert self.matched_atlas is not None
-        assert self.residuals is not None
+        matched = sorted(match)
+        self.matched_peaks = peaks[matched]
+        self.matched_atlas = atlas_lines[[match[i] for i in matched]]
 
+        self.residuals = self.matched_atlas - self.polyval(
+            self.matched_peaks, fit_coeff_new
+        )
         self.rms = np.sqrt(
             np.nansum(self.residuals**2.0) / len(self.residuals)
         )
@@ -1955,7 +1899,7 @@ class Calibrator:
                     "Input solution is returned."
                 )
                 return (
-                    fit_coeff,
+                    fit_coeff_new,
                     self.matched_peaks,
                     self.matched_atlas,
                     self.rms,
-- 
2.43.0


From 446d9450bce0abea1eea43b48b75c4645e39b367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:14 +0000
Subject: [PATCH 27/62] fix: do not modify the spectrum when plotting it in log
 space

---
 src/rascal/plotting.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rascal/plotting.py b/src/rascal/plotting.py
index 96695d0..c3e7d9b 100644
--- a/src/rascal/plotting.py
+++ b/src/rascal/plotting.py
@@ -741,6 +741,9 @@ def plot_fit(
             )
 
     if spectrum is not None:
+        # Work on a copy, the spectrum belongs to the user
+        spectrum = np.array(spectrum, dtype="float")
+
         if log_spectrum:
             spectrum[spectrum < 0] = 1e-100
             spectrum = np.log10(spectrum)
-- 
2.43.0


From 3573b5102bb550f50e84d217018c57f560684157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:14 +0000
Subject: [PATCH 28/62] fix: plot_arc of a spectrum given as a list or not at
 all

---
 src/rascal/plotting.py | 42 ++++++++++++++++++++----------------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/src/rascal/plotting.py b/src/rascal/plotting.py
index c3e7d9b..0d99dec 100644
--- a/src/rascal/plotting.py
+++ b/src/rascal/plotting.py
@@ -1206,19 +1206,25 @@ def plot_arc(
 
     """
 
-    if pixel_list is None:
-        pixel_list = np.arange(len(calibrator.spectrum))
+    # The spectrum can also be supplied as a list
+    spectrum = calibrator.spectrum
+
+    if spectrum is not None:
+        spectrum = np.asarray(spectrum)
+
+    if pixel_list is None and spectrum is not None:
+        pixel_list = np.arange(len(spectrum))
 
     if calibrator.plot_with_matplotlib:
         _import_matplotlib()
 
         fig = plt.figure(figsize=(18, 5))
 
-        if calibrator.spectrum is not None:
+        if spectrum is not None:
             if log_spectrum:
                 plt.plot(
                     pixel_list,
-                    np.log10(calibrator.spectrum / calibrator.spectrum.max()),
+                    np.log10(spectrum / spectrum.max()),
                     label="Arc Spectrum",
                 )
                 plt.vlines(
@@ -1229,7 +1235,7 @@ def plot_arc(
             else:
                 plt.plot(
                     pixel_list,
-                    calibrator.spectrum / calibrator.spectrum.max(),
+                    spectrum / spectrum.max(),
                     label="Arc Spectrum",
                 )
                 plt.ylabel("Normalised Count")
@@ -1240,8 +1246,8 @@ def plot_arc(
                     label="Detected Peaks",
                     color="C1",
                 )
-            plt.title("Number of pixels: " + str(calibrator.spectrum.shape[0]))
-            plt.xlim(0, calibrator.spectrum.shape[0])
+            plt.title("Number of pixels: " + str(spectrum.shape[0]))
+            plt.xlim(0, spectrum.shape[0])
             plt.legend()
 
         else:
@@ -1279,34 +1285,26 @@ def plot_arc(
             fig.add_trace(
                 go.Scatter(
                     x=list(pixel_list),
-                    y=list(
-                        np.log10(
-                            calibrator.spectrum / calibrator.spectrum.max()
-                        )
-                    ),
+                    y=list(np.log10(spectrum / spectrum.max())),
                     mode="lines",
                     name="Arc",
                 )
             )
-            xmin = min(
-                np.log10(calibrator.spectrum / calibrator.spectrum.max())
-            )
-            xmax = max(
-                np.log10(calibrator.spectrum / calibrator.spectrum.max())
-            )
+            xmin = min(np.log10(spectrum / spectrum.max()))
+            xmax = max(np.log10(spectrum / spectrum.max()))
 
         else:
             # Plot all-pairs
             fig.add_trace(
                 go.Scatter(
                     x=list(pixel_list),
-                    y=list(calibrator.spectrum / calibrator.spectrum.max()),
+                    y=list(spectrum / spectrum.max()),
                     mode="lines",
                     name="Arc",
                 )
             )
-            xmin = min(calibrator.spectrum / calibrator.spectrum.max())
-            xmax = max(calibrator.spectrum / calibrator.spectrum.max())
+            xmin = min(spectrum / spectrum.max())
+            xmax = max(spectrum / spectrum.max())
 
         # Add vlines
         for i in calibrator.peaks:
@@ -1331,7 +1329,7 @@ def plot_arc(
             xaxis=dict(
                 title="Pixel",
                 zeroline=False,
-                range=[0.0, len(calibrator.spectrum)],
+                range=[0.0, len(spectrum)],
                 showgrid=True,
             ),
             hovermode="closest",
-- 
2.43.0


From ab88f5ec05ff8e6af04be701992716f85d24cd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:14 +0000
Subject: [PATCH 29/62] fix: plot the candidate pairs at their positions in the
 search space

Every (pixel, wavelength, weight) was sorted by value before it was plotted.
---
 src/rascal/calibrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 2ed2a33..274ca8e 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -152,7 +152,7 @@ class Calibrator:
             for pair in np.array(pairs).T:
                 merged.append(pair)
 
-        return np.sort(np.array(merged))
+        return np.array(merged)
 
     def _get_most_common_candidates(
         self, candidates, top_n_candidate, weighted
-- 
2.43.0


From ed545ebfc52641a43e15853fec3862c41226e93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:14 +0000
Subject: [PATCH 30/62] fix: label the axes of the search space plot by what
 they show

---
 src/rascal/plotting.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rascal/plotting.py b/src/rascal/plotting.py
index 0d99dec..52b7536 100644
--- a/src/rascal/plotting.py
+++ b/src/rascal/plotting.py
@@ -440,8 +440,8 @@ def plot_search_space(
             calibrator.max_wavelength + calibrator.range_tolerance,
         )
 
-        plt.xlabel("Wavelength / A")
-        plt.ylabel("Pixel")
+        plt.xlabel("Pixel")
+        plt.ylabel("Wavelength / A")
         plt.legend()
         plt.grid()
         plt.tight_layout()
@@ -625,7 +625,7 @@ def plot_search_space(
         fig.update_layout(
             autosize=True,
             yaxis=dict(
-                title="Pixel",
+                title="Wavelength / A",
                 range=[
                     calibrator.min_wavelength
                     - calibrator.range_tolerance * 1.1,
@@ -635,7 +635,7 @@ def plot_search_space(
                 showgrid=True,
             ),
             xaxis=dict(
-                title="Wavelength / A",
+                title="Pixel",
                 zeroline=False,
                 range=[0.0, calibrator.pixel_list.max()],
                 showgrid=True,
-- 
2.43.0


From abc8cac58717717fef292d551d59bc24437c744d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:14 +0000
Subject: [PATCH 31/62] fix: show the residuals of the solution in plot_fit
 with matplotlib

The difference between the matched line and itself was shown, i.e. always zero.
---
 src/rascal/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rascal/plotting.py b/src/rascal/plotting.py
index 52b7536..3b70aca 100644
--- a/src/rascal/plotting.py
+++ b/src/rascal/plotting.py
@@ -808,7 +808,7 @@ def plot_fit(
             calibrator.logger.info("Peak at: {} A".format(x))
 
             fitted_peaks.append(p)
-            fitted_diff.append(diff[idx])
+            fitted_diff.append(x - calibrator.polyval(p, fit_coeff))
             calibrator.logger.info(
                 "- matched to {} A".format(calibrator.atlas.get_lines()[idx])
             )
-- 
2.43.0


From 01de42d68036a2c8164a0c70a5cebc0f9c96f70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:14 +0000
Subject: [PATCH 32/62] fix: match the elements case insensitively in
 plot_calibration_lines

---
 src/rascal/plotting.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/rascal/plotting.py b/src/rascal/plotting.py
index 3b70aca..bdd8dd4 100644
--- a/src/rascal/plotting.py
+++ b/src/rascal/plotting.py
@@ -130,6 +130,9 @@ def plot_calibration_lines(
 
     _import_matplotlib()
 
+    if isinstance(elements, str):
+        elements = [elements]
+
     # the min_intensity and min_distance are set to 0.0 because the
     # simulated spectrum would contain them. These arguments only
     # affect the labelling.
@@ -161,11 +164,10 @@ def plot_calibration_lines(
     i = np.zeros_like(w)
 
     for e in elements:
+        e_mask = np.char.lower(element_list) == e.lower()
         i[
-            np.isin(
-                w, np.around(wavelength_list[element_list == e], decimals=3)
-            )
-        ] += intensity_list[element_list == e]
+            np.isin(w, np.around(wavelength_list[e_mask], decimals=3))
+        ] += intensity_list[e_mask]
     # Convolve to simulate the arc spectrum
     model_spectrum = signal.convolve(i, gaussian, mode="same")
 
@@ -189,7 +191,7 @@ def plot_calibration_lines(
     fig = plt.figure(**fig_kwarg)
 
     for j, e in enumerate(elements):
-        e_mask = element_list == e
+        e_mask = np.char.lower(element_list) == e.lower()
         markerline, stemline, _ = plt.stem(
             wavelength_list[e_mask],
             intensity_list[e_mask],
-- 
2.43.0


From 93877facab97c1aceb090ff413ec941ed6e50aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:14 +0000
Subject: [PATCH 33/62] fix: use the coefficients of the current model in the
 synthetic spectrum

set_model() did not update the coefficients, so that constant and linear models
kept using those of the constructor, or failed if there were none.
---
 src/rascal/synthetic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rascal/synthetic.py b/src/rascal/synthetic.py
index 64c159d..4b50d22 100644
--- a/src/rascal/synthetic.py
+++ b/src/rascal/synthetic.py
@@ -36,6 +36,7 @@ class SyntheticSpectrum:
         """
 
         if isinstance(coefficients, (list, np.ndarray)):
+            self.coefficients = coefficients
             self.degree = len(coefficients) - 1
             self.model = models.polynomial(a=coefficients, degree=self.degree)
 
-- 
2.43.0


From 44489615b201b392debcd328cd5e67397809bb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:05 +0000
Subject: [PATCH 34/62] fix: keep the slope limits and the pairs in step with
 the pixels

---
 src/rascal/calibrator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 274ca8e..e965f2b 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -974,6 +974,10 @@ class Calibrator:
             fill_value="extrapolate",
         )
 
+        # the search space depends on the pixels
+        if self.min_wavelength is not None:
+            self.set_hough_properties()
+
         if seed is not None:
             np.random.seed(seed)
 
-- 
2.43.0


From 3b85ac2445c458696bb49dc7f68d05b9e7e5c9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:05 +0000
Subject: [PATCH 35/62] fix: derive the slope limits from the declared minimum
 wavelength

---
 src/rascal/calibrator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index e965f2b..2ab039f 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -1126,7 +1126,7 @@ class Calibrator:
                 - self.linearity_tolerance
             )
             - (
-                self.min_intercept
+                self.min_wavelength
                 + self.range_tolerance
                 + self.linearity_tolerance
             )
@@ -1139,7 +1139,7 @@ class Calibrator:
                 + self.linearity_tolerance
             )
             - (
-                self.min_intercept
+                self.min_wavelength
                 - self.range_tolerance
                 - self.linearity_tolerance
             )
-- 
2.43.0


From ddd8c5c37fde3ba0ddb9f22ffbf963fe068ef549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:05 +0000
Subject: [PATCH 36/62] fix: evaluate a polynomial with coefficients of mixed
 types

---
 src/rascal/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rascal/models.py b/src/rascal/models.py
index 317f119..90fb701 100644
--- a/src/rascal/models.py
+++ b/src/rascal/models.py
@@ -19,7 +19,7 @@ def polynomial(a, degree=3):
         t = a[-1]
 
         for i in range(1, int(degree + 1)):
-            t += a[int(degree - i)] * x**i
+            t = t + a[int(degree - i)] * x**i
 
         return t
 
-- 
2.43.0


From 6cd0fa467552e582295444e85fdc61be88437dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:17 +0000
Subject: [PATCH 37/62] fix: allow the Hough transform of no points

---
 src/rascal/houghtransform.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rascal/houghtransform.py b/src/rascal/houghtransform.py
index e16b2f7..c72bf55 100644
--- a/src/rascal/houghtransform.py
+++ b/src/rascal/houghtransform.py
@@ -86,8 +86,8 @@ class HoughTransform:
         slopes = np.linspace(self.min_slope, self.max_slope, num_slopes)
 
         # Computing all the intercepts and gradients
-        intercepts = np.concatenate(y - np.outer(slopes, x))
-        gradients = np.concatenate(np.column_stack([slopes] * len(x)))
+        intercepts = (y - np.outer(slopes, x)).ravel()
+        gradients = np.repeat(slopes, len(x))
 
         # Apply boundaries
         mask = (self.min_intercept <= intercepts) & (
@@ -120,8 +120,8 @@ class HoughTransform:
         x = x[idx_sort]
         y = y[idx_sort]
 
-        gradients = []
-        intercepts = []
+        gradients = [np.empty(0)]
+        intercepts = [np.empty(0)]
 
         # For each point (x, y), computes the gradient and intercept for all
         # (X, Y) with positive gradients
-- 
2.43.0


From f8fb79c8105278af409b84efdffb729b52311c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:17 +0000
Subject: [PATCH 38/62] fix: fail explicitly when the atlas is empty

---
 src/rascal/calibrator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 2ab039f..d61f7f0 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -1719,9 +1719,6 @@ class Calibrator:
             progress=self.progress,
         )
 
-        peak_utilisation = n_inliers / len(self.peaks)
-        atlas_utilisation = n_inliers / len(self.atlas)
-
         if not valid:
             self.logger.warning("Invalid fit")
 
@@ -1732,6 +1729,9 @@ class Calibrator:
 
         assert fit_coeff is not None, "Couldn't fit"
 
+        peak_utilisation = n_inliers / len(self.peaks)
+        atlas_utilisation = n_inliers / len(self.atlas)
+
         self.fit_coeff = fit_coeff
         self.rms = rms
         self.residual = residual
-- 
2.43.0


From cb4bea2204b879ec2d9d79b9b52a27c111e701de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:24 +0000
Subject: [PATCH 39/62] fix: do not mix up the matches of an earlier fit with a
 failed one

---
 src/rascal/calibrator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index d61f7f0..452d0ac 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -451,6 +451,10 @@ class Calibrator:
         best_residual = None
         best_inliers = 0
 
+        # The matches of an earlier fit are not those of this one
+        self.matched_peaks = []
+        self.matched_atlas = []
+
         # Note that there may be multiple matches for
         # each peak, that is len(x) > len(np.unique(x))
         x = np.array(self.candidate_peak)
-- 
2.43.0


From ec79a2140a21ade73c0ef613a2407a2b6b8f3d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:14 +0000
Subject: [PATCH 40/62] fix: set none of the ransac properties if one is
 invalid

---
 src/rascal/calibrator.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 452d0ac..b0c257d 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -1210,6 +1210,19 @@ class Calibrator:
 
         """
 
+        # Nothing is set if any of the values is invalid
+        if minimum_matches is not None:
+            assert minimum_matches > 0
+
+        if minimum_peak_utilisation is not None:
+            assert (
+                minimum_peak_utilisation >= 0
+                and minimum_peak_utilisation <= 1.0
+            )
+
+        if minimum_fit_error is not None:
+            assert minimum_fit_error >= 0
+
         # Setting the sample_size
         if sample_size is not None:
             self.sample_size = sample_size
@@ -1282,7 +1295,6 @@ class Calibrator:
 
         # Set the minimum number of desired matches
         if minimum_matches is not None:
-            assert minimum_matches > 0
             self.minimum_matches = minimum_matches
 
         elif self.minimum_matches is None:
@@ -1293,10 +1305,6 @@ class Calibrator:
 
         # Set the minimum utilisation required
         if minimum_peak_utilisation is not None:
-            assert (
-                minimum_peak_utilisation >= 0
-                and minimum_peak_utilisation <= 1.0
-            )
             self.minimum_peak_utilisation = minimum_peak_utilisation
 
         elif self.minimum_peak_utilisation is None:
@@ -1307,7 +1315,6 @@ class Calibrator:
 
         # Set the minimum fit error
         if minimum_fit_error is not None:
-            assert minimum_fit_error >= 0
             self.minimum_fit_error = minimum_fit_error
 
         elif self.minimum_fit_error is None:
-- 
2.43.0


From 13c5bc989309db0726889c1b26b0a43710fc8646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:09 +0000
Subject: [PATCH 41/62] fix: allow a few Hough bins only

---
 src/rascal/calibrator.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index b0c257d..e32ca0b 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -504,20 +504,23 @@ class Calibrator:
         for p in np.unique(x):
             candidates[p] = y[x == p]
 
+        twoditp = None
+
         if self.ht.xedges is not None:
             xbin_size = (self.ht.xedges[1] - self.ht.xedges[0]) / 2.0
             ybin_size = (self.ht.yedges[1] - self.ht.yedges[0]) / 2.0
+            n_xbins, n_ybins = self.ht.hist.shape
 
-            if np.isfinite(self.hough_weight):
+            # There is nothing to be interpolated with a single bin
+            if np.isfinite(self.hough_weight) and min(n_xbins, n_ybins) > 1:
                 twoditp = interpolate.RectBivariateSpline(
                     self.ht.xedges[1:] - xbin_size,
                     self.ht.yedges[1:] - ybin_size,
                     self.ht.hist,
+                    kx=min(3, n_xbins - 1),
+                    ky=min(3, n_ybins - 1),
                 )
 
-        else:
-            twoditp = None
-
         def get_cost(err, fit_coeffs):
             # use the Hough space density as weights for the cost function
             wave = self.polyval(self.pixel_list, fit_coeffs)
-- 
2.43.0


From 4d56b1e900f6f4941b0bbfcc0c107233989567fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:59 +0000
Subject: [PATCH 42/62] fix: rank the distinct wavelengths of a peak

---
 src/rascal/calibrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index e32ca0b..83d7fec 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -214,7 +214,7 @@ class Calibrator:
 
                 out_peaks.extend([peak] * n)
                 out_wavelengths.extend(
-                    wavelengths_matched[np.argsort(-aggregated_count)[:n]]
+                    unique_wavelengths[np.argsort(-aggregated_count)[:n]]
                 )
 
         return out_peaks, out_wavelengths
-- 
2.43.0


From 6788c73564136f72b28862c80221c02926d3267e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:59 +0000
Subject: [PATCH 43/62] fix: let num_pix set after the construction take effect

---
 src/rascal/calibrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 83d7fec..39c6775 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -966,7 +966,7 @@ class Calibrator:
         if pixel_list is not None:
             self.pixel_list = np.asarray(pixel_list)
 
-        elif self.pixel_list is None:
+        elif (num_pix is not None) or (self.pixel_list is None):
             self.pixel_list = np.arange(self.num_pix)
 
         else:
-- 
2.43.0


From 66f4bb6d5f81d86fe2b5b6f85e1c83d6071a7c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:59 +0000
Subject: [PATCH 44/62] fix: weight the solutions with the density at their own
 gradient

---
 src/rascal/calibrator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 39c6775..4209169 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -529,9 +529,9 @@ class Calibrator:
 
             # modified cost function weighted by the Hough space density
             if (self.hough_weight is not None) & (twoditp is not None):
-                weight = self.hough_weight * np.sum(
-                    twoditp(intercept, gradient, grid=False)
-                )
+                density = twoditp(gradient, intercept, grid=False)
+                # The interpolation can undershoot next to a dense bin
+                weight = self.hough_weight * np.sum(np.clip(density, 0, None))
 
             else:
                 weight = 1.0
-- 
2.43.0


From e27fdf1c190d65f169ed6172f28d54341e122ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:38 +0000
Subject: [PATCH 45/62] fix: keep a supplied pixel list when only num_pix is
 set later

---
 src/rascal/calibrator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 4209169..6b1b2d7 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -50,6 +50,7 @@ class Calibrator:
         # calibrator_properties
         self.num_pix = None
         self.pixel_list = None
+        self._pixel_list_supplied = False
         self.plotting_library = None
         self.constrain_poly = None
 
@@ -965,8 +966,11 @@ class Calibrator:
         # set the pixel_list
         if pixel_list is not None:
             self.pixel_list = np.asarray(pixel_list)
+            self._pixel_list_supplied = True
 
-        elif (num_pix is not None) or (self.pixel_list is None):
+        elif self.pixel_list is None or (
+            num_pix is not None and not self._pixel_list_supplied
+        ):
             self.pixel_list = np.arange(self.num_pix)
 
         else:
-- 
2.43.0


From b788a81a30f92826e51bd09acaeeea75457fe32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:53 +0000
Subject: [PATCH 46/62] fix: count the peaks without a line of their own as
 outliers

---
 src/rascal/calibrator.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 6b1b2d7..86f33ba 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -537,9 +537,11 @@ class Calibrator:
             else:
                 weight = 1.0
 
-            return (
-                sum(err) / (len(err) - len(fit_coeffs) + 1) / (weight + 1e-9)
-            )
+            # The peaks that lost their line to another peak are outliers too
+            n_lost = len(peaks) - len(err)
+            total = sum(err) + n_lost * self.ransac_tolerance
+
+            return total / (len(peaks) - len(fit_coeffs) + 1) / (weight + 1e-9)
 
         # A pre-existing fit is the solution to be outperformed
         if fit_coeff is not None:
-- 
2.43.0


From 680d937d87d7da97df57e03837930dd84d125166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:00 +0000
Subject: [PATCH 47/62] fix: insert fractional pixels into integer matches

---
 src/rascal/calibrator.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 86f33ba..feabbde 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -1999,9 +1999,14 @@ class Calibrator:
         larger = np.asarray(self.matched_peaks) > pix
         arg = np.argmax(larger) if larger.any() else len(larger)
 
-        # Only update the lists if both can be inserted
-        matched_peaks = np.insert(self.matched_peaks, arg, pix)
-        matched_atlas = np.insert(self.matched_atlas, arg, wave)
+        # Only update the lists if both can be inserted. An array of integers
+        # would truncate the values inserted
+        matched_peaks = np.insert(
+            np.asarray(self.matched_peaks, dtype=float), arg, pix
+        )
+        matched_atlas = np.insert(
+            np.asarray(self.matched_atlas, dtype=float), arg, wave
+        )
 
         self.matched_peaks = matched_peaks
         self.matched_atlas = matched_atlas
-- 
2.43.0


From e2574ecbce09eff5fc80fe9b2a14ebeff3ec05db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:37 +0000
Subject: [PATCH 48/62] fix: start the refinement of a peak from its centre and
 width

The moments were divided by the number of pixels instead of the total
intensity, so the fit of a narrow line started far from it and was often
lost or diverged to another place.
---
 src/rascal/util.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index a210a29..bdb20eb 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -509,8 +509,10 @@ def refine_peaks(spectrum, peaks, window_width=10, distance=None):
         if n == 0:
             continue
 
-        mean = np.sum(x[mask] * y[mask]) / n
-        sigma = np.sum(y[mask] * (x[mask] - mean) ** 2) / n
+        # Start from the moments of the profile
+        weight = np.clip(y[mask], 0, None)
+        mean = np.average(x[mask], weights=weight)
+        sigma = np.sqrt(np.average((x[mask] - mean) ** 2, weights=weight))
 
         try:
             popt, _ = curve_fit(gauss, x[mask], y[mask], p0=[1, mean, sigma])
-- 
2.43.0


From 19afc8ce988c7befeff93b1b17419c08efaa761d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:37 +0000
Subject: [PATCH 49/62] fix: infinite pixels in the spectrum of a refined peak

They are masked, but the profile was normalised by them, which lost the
peak.
---
 src/rascal/util.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index bdb20eb..1a1683c 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -500,7 +500,12 @@ def refine_peaks(spectrum, peaks, window_width=10, distance=None):
     for peak in peaks:
         start = max(0, int(peak) - window_width)
         y = spectrum[start : min(int(peak) + window_width, length)]
-        y = y / np.nanmax(y)
+        finite = y[np.isfinite(y)]
+
+        if len(finite) == 0:
+            continue
+
+        y = y / np.max(finite)
         x = np.arange(len(y))
 
         mask = np.isfinite(y) & ~np.isnan(y)
-- 
2.43.0


From 76ea7eceb0c0315f1d9eb102c80ffad0615c0831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:17 +0000
Subject: [PATCH 50/62] fix: plot the expected lines when an element has none
 in the range

matplotlib cannot draw the stems of an empty list.
---
 src/rascal/plotting.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rascal/plotting.py b/src/rascal/plotting.py
index bdd8dd4..5dee013 100644
--- a/src/rascal/plotting.py
+++ b/src/rascal/plotting.py
@@ -192,6 +192,11 @@ def plot_calibration_lines(
 
     for j, e in enumerate(elements):
         e_mask = np.char.lower(element_list) == e.lower()
+
+        # Nothing to draw for an element without lines in this range
+        if not np.any(e_mask):
+            continue
+
         markerline, stemline, _ = plt.stem(
             wavelength_list[e_mask],
             intensity_list[e_mask],
-- 
2.43.0


From 2a80aa59d3dd59c3cee3bb4ecb8194ee553ee0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:04 +0000
Subject: [PATCH 51/62] fix: robust_polyfit with a starting coefficient of zero

The derivative is taken with a step relative to the coefficient, so a
coefficient starting at zero stayed there whatever the data.
---
 src/rascal/models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rascal/models.py b/src/rascal/models.py
index 90fb701..08ac0cf 100644
--- a/src/rascal/models.py
+++ b/src/rascal/models.py
@@ -101,6 +101,8 @@ def robust_polyfit(x, y, degree=3, x0=None):
         p_init /= y.std()
         # x0 is lowest order first, the cost function takes the highest first
         p_init = p_init[::-1]
+        # The derivative is taken with a step relative to the coefficients
+        p_init[p_init == 0] = 1.0
     else:
         p_init = np.ones(degree + 1)
 
-- 
2.43.0


From d392b0608deab523a6f51f0a6b006411fb1d2e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:19 +0000
Subject: [PATCH 52/62] fix: filter the separation of wavelengths given as a
 list

---
 src/rascal/util.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index 1a1683c..47f247f 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -225,6 +225,7 @@ def filter_separation(wavelengths, min_separation=0):
     """
 
     # A line without any neighbour is always sufficiently separated
+    wavelengths = np.asarray(wavelengths)
     if len(wavelengths) < 2:
         return np.ones(len(wavelengths), dtype=bool)
 
-- 
2.43.0


From b05be75ce9ef84a0aadaede8d3bc2d5a9033ae7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:19 +0000
Subject: [PATCH 53/62] fix: robust_polyfit with a starting coefficient that is
 tiny

---
 src/rascal/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rascal/models.py b/src/rascal/models.py
index 08ac0cf..737245e 100644
--- a/src/rascal/models.py
+++ b/src/rascal/models.py
@@ -102,7 +102,7 @@ def robust_polyfit(x, y, degree=3, x0=None):
         # x0 is lowest order first, the cost function takes the highest first
         p_init = p_init[::-1]
         # The derivative is taken with a step relative to the coefficients
-        p_init[p_init == 0] = 1.0
+        p_init[np.abs(p_init) < 1e-6] = 1.0
     else:
         p_init = np.ones(degree + 1)
 
-- 
2.43.0


From f2039081cc9cfa434516e0f3c77f473c30369903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:19 +0000
Subject: [PATCH 54/62] fix: accept lists in robust_polyfit, as documented

---
 src/rascal/models.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rascal/models.py b/src/rascal/models.py
index 737245e..b0039d4 100644
--- a/src/rascal/models.py
+++ b/src/rascal/models.py
@@ -92,6 +92,9 @@ def robust_polyfit(x, y, degree=3, x0=None):
 
     """
 
+    x = np.asarray(x)
+    y = np.asarray(y)
+
     x_n, y_n = normalise_input(x, y)
 
     # Need to normalise the initial coefficients too
-- 
2.43.0


From ce1ee2a7d73396560bc869bf00833f06b30c0f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:15 +0000
Subject: [PATCH 55/62] fix: refine a solution given as a list or of integers
 in match_peaks

---
 src/rascal/calibrator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index feabbde..cccb842 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -1849,7 +1849,7 @@ class Calibrator:
             fit_deg = len(fit_coeff) - 1
 
         if refine:
-            fit_coeff_new = fit_coeff.copy()
+            fit_coeff_new = np.array(fit_coeff, dtype=float)
 
             if n_delta is None:
                 n_delta = len(fit_coeff_new) - 1
@@ -1858,7 +1858,7 @@ class Calibrator:
             fitted_delta = minimize(
                 self._adjust_polyfit,
                 fit_coeff_new[: int(n_delta)] * 1e-3,
-                args=(fit_coeff, tolerance, min_frac),
+                args=(fit_coeff_new, tolerance, min_frac),
                 method=method,
                 tol=convergence,
                 options={"maxiter": 10000},
-- 
2.43.0


From a44ad15b87c8075469f498feca4c1b0782ab430a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:43 +0000
Subject: [PATCH 56/62] fix: do not truncate long fields of a line list

---
 src/rascal/util.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index 47f247f..783f030 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -372,11 +372,9 @@ def load_calibration_lines(
             file_path = pkg_resources.resource_filename(
                 "rascal", "arc_lines/nist_clean.csv"
             )
-            lines = np.loadtxt(file_path, delimiter=",", dtype=">U12")
+            lines = np.loadtxt(file_path, delimiter=",", dtype=str)
         elif os.path.exists(linelist):
-            lines = np.loadtxt(
-                linelist, delimiter=",", dtype=">U12", ndmin=2
-            )
+            lines = np.loadtxt(linelist, delimiter=",", dtype=str, ndmin=2)
         else:
             raise ValueError(
                 f"Unknown string is provided as linelist: {linelist}."
-- 
2.43.0


From 5b3bcd213e9a5e02ab4eb74c8f63691203531336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:40 +0000
Subject: [PATCH 57/62] fix: select the lines of a window that starts at zero

---
 src/rascal/util.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index 783f030..80ed424 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -389,12 +389,15 @@ def load_calibration_lines(
 
     # update the wavelength limit
     if not vacuum:
-        min_atlas_wavelength, max_atlas_wavelength = air_to_vacuum_wavelength(
-            (min_atlas_wavelength, max_atlas_wavelength),
+        limits = np.array((min_atlas_wavelength, max_atlas_wavelength), float)
+        # There is no refractive index at zero
+        limits[limits != 0] = air_to_vacuum_wavelength(
+            limits[limits != 0],
             temperature,
             pressure,
             relative_humidity,
         )
+        min_atlas_wavelength, max_atlas_wavelength = limits
 
     # Filter wavelengths
     lines = filter_wavelengths(
-- 
2.43.0


From 9bde8f816d35fa49bc54f1cc2d455fe5bdf1efe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:36 +0000
Subject: [PATCH 58/62] fix: skip a peak with too few finite pixels to be
 refined

---
 src/rascal/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index 80ed424..2670850 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -513,7 +513,8 @@ def refine_peaks(spectrum, peaks, window_width=10, distance=None):
         mask = np.isfinite(y) & ~np.isnan(y)
         n = np.sum(mask)
 
-        if n == 0:
+        # A Gaussian has got three parameters
+        if n < 3:
             continue
 
         # Start from the moments of the profile
-- 
2.43.0


From 78dce2353a39e9c882362f072c5f81869329c5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:08 +0000
Subject: [PATCH 59/62] fix: do not display a plotly figure returned as a json
 string

As documented in plot_fit and plot_arc.
---
 src/rascal/plotting.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rascal/plotting.py b/src/rascal/plotting.py
index 5dee013..d661512 100644
--- a/src/rascal/plotting.py
+++ b/src/rascal/plotting.py
@@ -1145,7 +1145,8 @@ def plot_fit(
                 elif t in ["jpg", "png", "svg", "pdf"]:
                     pio.write_image(fig, filename_output + "." + t)
 
-        if display:
+        # Nothing gets displayed if the json string is returned
+        if display and not return_jsonstring:
             if renderer == "default":
                 fig.show()
 
@@ -1369,7 +1370,8 @@ def plot_arc(
                 elif t in ["jpg", "png", "svg", "pdf"]:
                     pio.write_image(fig, filename_output + "." + t)
 
-        if display:
+        # Nothing gets displayed if the json string is returned
+        if display and not return_jsonstring:
             if renderer == "default":
                 fig.show()
 
-- 
2.43.0


From 1d0400ca93e9c0357222c8ade33aa5c62f8cec6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:58 +0000
Subject: [PATCH 60/62] fix: show the logarithm of a spectrum on a linear axis
 in the plotly fit plot

The logarithm was taken of the data and of the axis, so that the spectrum
was out of range.
---
 src/rascal/plotting.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/rascal/plotting.py b/src/rascal/plotting.py
index d661512..d8810f4 100644
--- a/src/rascal/plotting.py
+++ b/src/rascal/plotting.py
@@ -1079,14 +1079,11 @@ def plot_fit(
             if log_spectrum:
                 fig.update_layout(
                     yaxis3=dict(
-                        title="Electron Count / e-",
-                        range=[
-                            np.log10(np.percentile(spectrum, 15)),
-                            np.log10(spec_max),
-                        ],
+                        title="log(Electron Count / e-)",
+                        # The spectrum is already in logarithm
+                        range=[0, spec_max],
                         domain=[0.67, 1.0],
                         showgrid=True,
-                        type="log",
                     )
                 )
 
-- 
2.43.0


From 4ecf9c5298f48dbb93a4c484cfb53f4f7d4a94d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:23 +0000
Subject: [PATCH 61/62] fix: plot the arc without a spectrum with plotly as
 with matplotlib

---
 src/rascal/plotting.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/rascal/plotting.py b/src/rascal/plotting.py
index d8810f4..3a122a0 100644
--- a/src/rascal/plotting.py
+++ b/src/rascal/plotting.py
@@ -1285,7 +1285,12 @@ def plot_arc(
 
         fig = go.Figure()
 
-        if log_spectrum:
+        # Nothing but the detected peaks can be shown without a spectrum
+        if spectrum is None:
+            xmin, xmax = 0.0, 1.05
+            pixel_max = max(calibrator.peaks)
+
+        elif log_spectrum:
             # Plot all-pairs
             fig.add_trace(
                 go.Scatter(
@@ -1311,6 +1316,9 @@ def plot_arc(
             xmin = min(spectrum / spectrum.max())
             xmax = max(spectrum / spectrum.max())
 
+        if spectrum is not None:
+            pixel_max = len(spectrum)
+
         # Add vlines
         for i in calibrator.peaks:
             fig.add_shape(
@@ -1334,7 +1342,7 @@ def plot_arc(
             xaxis=dict(
                 title="Pixel",
                 zeroline=False,
-                range=[0.0, len(spectrum)],
+                range=[0.0, pixel_max],
                 showgrid=True,
             ),
             hovermode="closest",
-- 
2.43.0


From 250394d454cab2d698fb3f03257436ddd4e42f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:29 +0000
Subject: [PATCH 62/62] fix: show all pixels of an arc plotted against a pixel
 list with gaps

---
 src/rascal/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rascal/plotting.py b/src/rascal/plotting.py
index 3a122a0..1728b33 100644
--- a/src/rascal/plotting.py
+++ b/src/rascal/plotting.py
@@ -1252,7 +1252,7 @@ def plot_arc(
                     color="C1",
                 )
             plt.title("Number of pixels: " + str(spectrum.shape[0]))
-            plt.xlim(0, spectrum.shape[0])
+            plt.xlim(0, np.max(pixel_list) + 1)
             plt.legend()
 
         else:
@@ -1317,7 +1317,7 @@ def plot_arc(
             xmax = max(spectrum / spectrum.max())
 
         if spectrum is not None:
-            pixel_max = len(spectrum)
+            pixel_max = np.max(pixel_list) + 1
 
         # Add vlines
         for i in calibrator.peaks:
-- 
2.43.0

