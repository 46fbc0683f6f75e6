From 81159b2b93e4ebaa052409c65bcf3559528b473d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:15 +0000
Subject: [PATCH 01/41] fix: construct_rphi_avg_image no longer modifies the
 caller's angles and image

---
 skbeam/core/image.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skbeam/core/image.py b/skbeam/core/image.py
index cc8e8bf..6585f84 100644
--- a/skbeam/core/image.py
+++ b/skbeam/core/image.py
@@ -233,6 +233,7 @@ def construct_rphi_avg_image(radii, angles, image, mask=None, center=None, shape
                 )
             else:
                 raise ValueError("Mask not right dimensions." "Expected 2 got {}".format(mask.ndim))
+        image = np.array(image, dtype=float)
         image[np.where(mask == 0)] = np.nan
     if shape is None:
         if center is not None:
@@ -254,7 +255,7 @@ def construct_rphi_avg_image(radii, angles, image, mask=None, center=None, shape
 
     # 1.a : subtract minimum
     anglemin = angles[0]
-    angles -= anglemin
+    angles = angles - anglemin
     # 1.b : modulo 2*pi
     angles = angles % (2 * np.pi)
     # 1.c : find any extra cross-overs and ignore them
-- 
2.43.0


From b826ae2b98270ef6d7f5cd4f6d2101e2d51fa6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:03 +0000
Subject: [PATCH 02/41] fix: mask.margin keeps every pixel when the edge size
 is 0

---
 skbeam/core/mask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/mask.py b/skbeam/core/mask.py
index 4298d02..9b78439 100644
--- a/skbeam/core/mask.py
+++ b/skbeam/core/mask.py
@@ -130,7 +130,7 @@ def margin(img_shape, edge_size):
         The mask array, bad pixels are 0
     """
     mask = np.ones(img_shape, dtype=bool)
-    mask[edge_size:-edge_size, edge_size:-edge_size] = 0.0
+    mask[edge_size : img_shape[0] - edge_size, edge_size : img_shape[1] - edge_size] = 0.0
     return ~mask
 
 
-- 
2.43.0


From 343a67e101f90f879f5a675007243e3c163c811b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:03 +0000
Subject: [PATCH 03/41] fix: construct_circ_avg_image honours its left and
 right fill values

---
 skbeam/core/image.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skbeam/core/image.py b/skbeam/core/image.py
index 6585f84..7dc5f16 100644
--- a/skbeam/core/image.py
+++ b/skbeam/core/image.py
@@ -101,7 +101,7 @@ def _corr_ax1(input_image):
     return np.histogram(est_by_row, bins=np.arange(0, dim + 1))
 
 
-def construct_circ_avg_image(radii, intensities, dims=None, center=None, pixel_size=(1, 1), left=0, right=0):
+def construct_circ_avg_image(radii, intensities, dims=None, center=None, pixel_size=(1, 1), left=None, right=0):
     """
     Constructs a 2D image from circular averaged data
     where radii are given in units of pixels.
@@ -130,7 +130,7 @@ def construct_circ_avg_image(radii, intensities, dims=None, center=None, pixel_s
         default is ``(1, 1)``
     left: float, optional
         pixels smaller than the minimum radius are set to this value
-        (set to None for the value at the minimum radius)
+        (None, the default, for the value at the minimum radius)
     right: float, optional
         pixels larger than the maximum radius are set to this value
         (set to None for the value at the maximum radius)
@@ -169,7 +169,7 @@ def construct_circ_avg_image(radii, intensities, dims=None, center=None, pixel_s
         center = (dims[0] - 1) / 2.0, (dims[1] - 1) / 2.0
 
     radial_val = utils.radial_grid(center, dims, pixel_size)
-    CIMG = np.interp(radial_val, radii, intensities, right=0)
+    CIMG = np.interp(radial_val, radii, intensities, left=left, right=right)
 
     return CIMG
 
-- 
2.43.0


From ab217db2c0804afb45a1601eaa43a14f086bcf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:03 +0000
Subject: [PATCH 04/41] fix: BinnedStatisticDD with a mask leaves the caller's
 sample alone and masks integer samples

---
 skbeam/core/accumulators/binned_statistic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skbeam/core/accumulators/binned_statistic.py b/skbeam/core/accumulators/binned_statistic.py
index 913870b..44ab15c 100644
--- a/skbeam/core/accumulators/binned_statistic.py
+++ b/skbeam/core/accumulators/binned_statistic.py
@@ -108,6 +108,10 @@ class BinnedStatisticDD(object):
             sample = np.atleast_2d(sample).T
             N, self.D = sample.shape
 
+        if mask is not None:
+            # masked points are moved out of range below: work on a float copy
+            sample = np.array(sample, dtype=float)
+
         self.nbin = np.empty(self.D, int)
         self.edges = self.D * [None]
         self._centers = self.D * [None]
-- 
2.43.0


From 135e7215d3b443352edafea1cb6dc9283cb386c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:03 +0000
Subject: [PATCH 05/41] fix: cdi_recon does not overwrite the caller's initial
 object

---
 skbeam/core/cdi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/cdi.py b/skbeam/core/cdi.py
index 17ebdee..4a171bd 100644
--- a/skbeam/core/cdi.py
+++ b/skbeam/core/cdi.py
@@ -362,7 +362,7 @@ def cdi_recon(
         if real_operation:
             obj_b = np.abs(obj_b)
 
-        sample_obj += beta * (obj_a - obj_b)
+        sample_obj = sample_obj + beta * (obj_a - obj_b)
 
         # calculate errors
         obj_error[n] = np.linalg.norm(sample_obj - obj_old) / np.linalg.norm(obj_old)
-- 
2.43.0


From edac28aa5085b945de4a6bba90eb26066687d043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:16 +0000
Subject: [PATCH 06/41] fix: cdi_recon calls the callback every cb_step
 iterations

---
 skbeam/core/cdi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/cdi.py b/skbeam/core/cdi.py
index 4a171bd..ae720b7 100644
--- a/skbeam/core/cdi.py
+++ b/skbeam/core/cdi.py
@@ -379,7 +379,7 @@ def cdi_recon(
                     sup_error[n] = np.sum(sup_old)
                     sup_old = np.array(sup)
 
-        if cb_function and n_iterations % cb_step == 0:
+        if cb_function and (n + 1) % cb_step == 0:
             cb_function(sample_obj, obj_error, diff_error, sup_error)
 
         if n > start_avg * n_iterations:
-- 
2.43.0


From 44172244eaf41eb5890e7fdf396243dfa8ea2ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:43 +0000
Subject: [PATCH 07/41] fix: find_largest_peak keeps the window inside the
 spectrum

---
 skbeam/core/spectroscopy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/spectroscopy.py b/skbeam/core/spectroscopy.py
index 485ffec..99c7bc8 100644
--- a/skbeam/core/spectroscopy.py
+++ b/skbeam/core/spectroscopy.py
@@ -131,7 +131,7 @@ def find_largest_peak(x, y, window=None):
     # get the bin with the largest number of counts
     j = np.argmax(y)
     if window is not None:
-        roi = slice(np.max(j - window, 0), j + window + 1)
+        roi = slice(max(j - window, 0), j + window + 1)
     else:
         roi = slice(0, -1)
 
-- 
2.43.0


From e0a4922dc9f34d15acc14371c977d03cddc123f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:43 +0000
Subject: [PATCH 08/41] fix: integrate_ROI_spectrum selects bins by their
 centers

---
 skbeam/core/spectroscopy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/spectroscopy.py b/skbeam/core/spectroscopy.py
index 99c7bc8..1103d8c 100644
--- a/skbeam/core/spectroscopy.py
+++ b/skbeam/core/spectroscopy.py
@@ -178,7 +178,7 @@ def integrate_ROI_spectrum(bin_edges, counts, x_min, x_max):
 
     """
     bin_edges = np.asarray(bin_edges)
-    return integrate_ROI(bin_edges[:-1] + np.diff(bin_edges), counts, x_min, x_max)
+    return integrate_ROI(bin_edges[:-1] + np.diff(bin_edges) / 2, counts, x_min, x_max)
 
 
 def _formatter_array_regions(x, centers, window=1, tab_count=0):
-- 
2.43.0


From d02cefdf545b78454ee69d185a35f441f44f477a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:43 +0000
Subject: [PATCH 09/41] fix: ParamController names pileup parameters as the
 model reads them

---
 skbeam/core/fitting/xrf_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/fitting/xrf_model.py b/skbeam/core/fitting/xrf_model.py
index 691f997..0087cdd 100644
--- a/skbeam/core/fitting/xrf_model.py
+++ b/skbeam/core/fitting/xrf_model.py
@@ -535,7 +535,7 @@ class ParamController(object):
             self.params.update({param_name: new_pos})
         else:  # for pileup peak
             linename = "pileup_" + element.replace("-", "_")
-            param_name = linename + param_suffix  # as in lmfit Model
+            param_name = "_".join((linename, param_suffix))  # as in lmfit Model
             new_pos = PARAM_DEFAULTS[kind].copy()
             if constraint is not None:
                 self._element_strategy[param_name] = constraint
-- 
2.43.0


From 691c441a7835ac407d60f785c7b59e96ea3867fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:43 +0000
Subject: [PATCH 10/41] fix: get_activated_lines lists every line of the
 requested shell and no other

---
 skbeam/core/fitting/xrf_model.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/skbeam/core/fitting/xrf_model.py b/skbeam/core/fitting/xrf_model.py
index 0087cdd..4e0e97e 100644
--- a/skbeam/core/fitting/xrf_model.py
+++ b/skbeam/core/fitting/xrf_model.py
@@ -1453,8 +1453,10 @@ def _get_activated_line(incident_energy, elemental_line):
         e = Element(element)
         if e.cs(incident_energy)["ka1"] == 0:
             return
-        for num, item in enumerate(e.emission_line.all[:4]):
+        for num, item in enumerate(e.emission_line.all):
             line_name = item[0]
+            if "k" not in line_name:
+                continue
             if e.cs(incident_energy)[line_name] == 0:
                 continue
             line_list.append(str(element) + "_" + str(line_name))
@@ -1465,8 +1467,10 @@ def _get_activated_line(incident_energy, elemental_line):
         e = Element(element)
         if e.cs(incident_energy)["la1"] == 0:
             return
-        for num, item in enumerate(e.emission_line.all[4:-4]):
+        for num, item in enumerate(e.emission_line.all):
             line_name = item[0]
+            if "l" not in line_name:
+                continue
             if e.cs(incident_energy)[line_name] == 0:
                 continue
             line_list.append(str(element) + "_" + str(line_name))
@@ -1477,8 +1481,10 @@ def _get_activated_line(incident_energy, elemental_line):
         e = Element(element)
         if e.cs(incident_energy)["ma1"] == 0:
             return
-        for num, item in enumerate(e.emission_line.all[-4:]):
+        for num, item in enumerate(e.emission_line.all):
             line_name = item[0]
+            if "m" not in line_name:
+                continue
             if e.cs(incident_energy)[line_name] == 0:
                 continue
             line_list.append(str(element) + "_" + str(line_name))
-- 
2.43.0


From f260e5a010155b98902f2101ae49588e980b997a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:43 +0000
Subject: [PATCH 11/41] fix: fit_per_line_nnls works without background
 subtraction

---
 skbeam/core/fitting/xrf_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/fitting/xrf_model.py b/skbeam/core/fitting/xrf_model.py
index 4e0e97e..6b6b7f7 100644
--- a/skbeam/core/fitting/xrf_model.py
+++ b/skbeam/core/fitting/xrf_model.py
@@ -1525,7 +1525,7 @@ def fit_per_line_nnls(data, matv, param, use_snip):
             bg_sum = np.sum(bg)
             result, res = nnls_fit(y - bg, matv, weights=None)
         else:
-            result, res = nnls_fit(y - bg, matv, weights=None)
+            result, res = nnls_fit(y, matv, weights=None)
 
         sst = np.sum((y - np.mean(y)) ** 2)
         r2 = 1 - res / sst
-- 
2.43.0


From 8f8ea9c2d34c883909cb8e5e69862b569735548f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:43 +0000
Subject: [PATCH 12/41] fix: fit_pixel_multiprocess_nnls stops its workers when
 a fit fails

---
 skbeam/core/fitting/xrf_model.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/skbeam/core/fitting/xrf_model.py b/skbeam/core/fitting/xrf_model.py
index 6b6b7f7..a839329 100644
--- a/skbeam/core/fitting/xrf_model.py
+++ b/skbeam/core/fitting/xrf_model.py
@@ -1574,14 +1574,15 @@ def fit_pixel_multiprocess_nnls(exp_data, matv, param, use_snip=False):
     logger.info("cpu count: {}".format(num_processors_to_use))
     pool = multiprocessing.Pool(num_processors_to_use)
 
-    result_pool = [
-        pool.apply_async(_log_and_fit, (n, data, matv, param, use_snip)) for n, data in enumerate(exp_data)
-    ]
-
-    results = [r.get() for r in result_pool]
+    try:
+        result_pool = [
+            pool.apply_async(_log_and_fit, (n, data, matv, param, use_snip)) for n, data in enumerate(exp_data)
+        ]
 
-    pool.terminate()
-    pool.join()
+        results = [r.get() for r in result_pool]
+    finally:
+        pool.terminate()
+        pool.join()
 
     return np.array(results)
 
-- 
2.43.0


From 2cb9af0f09b58f275590cbaec0d20c31eb7ce0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:43 +0000
Subject: [PATCH 13/41] fix: assemble_models skips lines that are not activated

---
 skbeam/core/fitting/xrf_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skbeam/core/fitting/xrf_model.py b/skbeam/core/fitting/xrf_model.py
index a839329..b418972 100644
--- a/skbeam/core/fitting/xrf_model.py
+++ b/skbeam/core/fitting/xrf_model.py
@@ -1065,7 +1065,9 @@ class ModelSpectrum(object):
         self.mod = self.compton + self.elastic
 
         for element in self.elemental_lines:
-            self.mod += self.setup_element_model(element)
+            element_mod = self.setup_element_model(element)
+            if element_mod:
+                self.mod += element_mod
 
         # This is just a copy of the parameter list. Multiple occurrances.
         param_hints_elements = self._global_param_hints_elements_to_copy
-- 
2.43.0


From fa0c3f21fae41b605c1dc75c77c364df7dd23846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:45 +0000
Subject: [PATCH 14/41] fix: mask.threshold leaves the caller's mask and the
 masks it already yielded alone

---
 skbeam/core/mask.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skbeam/core/mask.py b/skbeam/core/mask.py
index 9b78439..08a9604 100644
--- a/skbeam/core/mask.py
+++ b/skbeam/core/mask.py
@@ -107,6 +107,7 @@ def threshold(images, threshold, mask=None):
     if mask is None:
         mask = np.ones_like(images[0])
     for im in images:
+        mask = np.array(mask)
         bad_pixels = np.where(im >= threshold)
         if len(bad_pixels[0]) != 0:
             mask[bad_pixels] = 0
-- 
2.43.0


From e7ba19f1f5a5363cd1230fb43441beeb87a01127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:59 +0000
Subject: [PATCH 15/41] fix: xsvs forms a coarser frame from every second finer
 frame only

---
 skbeam/core/speckle.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skbeam/core/speckle.py b/skbeam/core/speckle.py
index 5d62378..9d4306c 100644
--- a/skbeam/core/speckle.py
+++ b/skbeam/core/speckle.py
@@ -197,6 +197,7 @@ def xsvs(image_sets, label_array, number_of_img, timebin_num=2, max_cts=None):
             while level < num_times:
                 if not track_level[level]:
                     track_level[level] = 1
+                    break
                 else:
                     prev = 1 + (cur[level - 1] - 2) % timebin_num
                     cur[level] = 1 + cur[level] % timebin_num
-- 
2.43.0


From f9f07239a1ab1c11eee2198213d25ef77b3c22f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:59 +0000
Subject: [PATCH 16/41] fix: xsvs averages over image sets once per set

---
 skbeam/core/speckle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skbeam/core/speckle.py b/skbeam/core/speckle.py
index 9d4306c..3b501d1 100644
--- a/skbeam/core/speckle.py
+++ b/skbeam/core/speckle.py
@@ -220,8 +220,8 @@ def xsvs(image_sets, label_array, number_of_img, timebin_num=2, max_cts=None):
                     )
                     level += 1
 
-            prob_k_all += (prob_k - prob_k_all) / (i + 1)
-            prob_k_pow_all += (prob_k_pow - prob_k_pow_all) / (i + 1)
+        prob_k_all += (prob_k - prob_k_all) / (i + 1)
+        prob_k_pow_all += (prob_k_pow - prob_k_pow_all) / (i + 1)
 
     prob_k_std_dev = np.power((prob_k_pow_all - np.power(prob_k_all, 2)), 0.5)
 
-- 
2.43.0


From b2d2c0fed95e90084b537a253d5d171b177d13ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:14 +0000
Subject: [PATCH 17/41] fix: gsas_writer scales ESD intensities like their
 errors

---
 skbeam/io/save_powder_output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/io/save_powder_output.py b/skbeam/io/save_powder_output.py
index cb4f804..da0c035 100644
--- a/skbeam/io/save_powder_output.py
+++ b/skbeam/io/save_powder_output.py
@@ -211,7 +211,7 @@ def gsas_writer(tth, intensity, output_name, mode=None, err=None, dir_path=None)
             0,
         )
         lines.append("%-80s" % l_bank)
-        l_recs = ["%8.0f%8.0f" % (ii, ee * scale) for ii, ee in zip(intensity, err)]
+        l_recs = ["%8.0f%8.0f" % (ii * scale, ee * scale) for ii, ee in zip(intensity, err)]
         for i in range(0, len(l_recs), 5):
             lines.append("".join(l_recs[i : i + 5]))
     elif mode == "FXYE":
-- 
2.43.0


From 53e6c58fbeca1f2bd9bfeffb4e8fb78bd58be717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:14 +0000
Subject: [PATCH 18/41] fix: gsas_writer does not scale the FXYE angles

---
 skbeam/io/save_powder_output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/io/save_powder_output.py b/skbeam/io/save_powder_output.py
index da0c035..171dc58 100644
--- a/skbeam/io/save_powder_output.py
+++ b/skbeam/io/save_powder_output.py
@@ -227,7 +227,7 @@ def gsas_writer(tth, intensity, output_name, mode=None, err=None, dir_path=None)
         )
         lines.append("%-80s" % l_bank)
         l_recs = [
-            "%22.10f%22.10f%24.10f" % (xx * scale, yy * scale, ee * scale)
+            "%22.10f%22.10f%24.10f" % (xx, yy * scale, ee * scale)
             for xx, yy, ee in zip(tth, intensity, err)
         ]
         for i in range(len(l_recs)):
-- 
2.43.0


From 4613d8f8f54a630bb246ebdcb3ebab30d834fb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:14 +0000
Subject: [PATCH 19/41] fix: a rejected powder-output call no longer deletes
 the existing file

---
 skbeam/io/save_powder_output.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/skbeam/io/save_powder_output.py b/skbeam/io/save_powder_output.py
index 171dc58..05119bc 100644
--- a/skbeam/io/save_powder_output.py
+++ b/skbeam/io/save_powder_output.py
@@ -305,6 +305,5 @@ def _create_file_path(dir_path, output_name, ext):
 
     if os.path.isfile(file_path):
         logger.info("Output file of diffraction intensities" " already exists")
-        os.remove(file_path)
 
     return file_path
-- 
2.43.0


From 010fb6c9ff6e1305e3c877888423eaf696bacbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:14 +0000
Subject: [PATCH 20/41] fix: gsas_reader returns only the data points of an ESD
 bank

---
 skbeam/io/gsas_file_reader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skbeam/io/gsas_file_reader.py b/skbeam/io/gsas_file_reader.py
index 642a0a8..8a69fbf 100644
--- a/skbeam/io/gsas_file_reader.py
+++ b/skbeam/io/gsas_file_reader.py
@@ -162,10 +162,14 @@ def _get_esd_data(file):
         # convert from centidegrees to degrees
         start = float(S[0].split()[5]) / 100.0
         step = float(S[0].split()[6]) / 100.0
+        # number of data points, the last record may be padded
+        nch = float(S[0].split()[2])
 
         j = 0
         for line in S[1:]:
             for i in range(0, 80, 16):
+                if j >= nch:
+                    break
                 xi = start + step * j
                 yi = _sfloat(line[i : i + 8])
                 ei = _sfloat(line[i + 8 : i + 16])
-- 
2.43.0


From 88909f7ce0834cd564eaad9f90b793071ca0b7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:14 +0000
Subject: [PATCH 21/41] fix: ring_edges accepts one spacing less than widths

---
 skbeam/core/roi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/roi.py b/skbeam/core/roi.py
index c09be46..059c18b 100644
--- a/skbeam/core/roi.py
+++ b/skbeam/core/roi.py
@@ -185,7 +185,7 @@ def ring_edges(inner_radius, width, spacing=0, num_rings=None):
     width_is_list = isinstance(width, collections.abc.Iterable)
     spacing_is_list = isinstance(spacing, collections.abc.Iterable)
     if width_is_list and spacing_is_list:
-        if len(width) != len(spacing) - 1:
+        if len(spacing) != len(width) - 1:
             raise ValueError("List of spacings must be one less than list " "of widths.")
     if num_rings is None:
         try:
-- 
2.43.0


From 1f0b240cff796059a0f2755a73ddd2c8659b544a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:14 +0000
Subject: [PATCH 22/41] fix: segmented_rings keeps rings and segments apart for
 any offset angle and segment list

---
 skbeam/core/roi.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/skbeam/core/roi.py b/skbeam/core/roi.py
index 059c18b..89ceee4 100644
--- a/skbeam/core/roi.py
+++ b/skbeam/core/roi.py
@@ -280,9 +280,14 @@ def segmented_rings(edges, segments, center, shape, offset_angle=0):
         segments = np.linspace(0, 2 * np.pi, num=1 + segments, endpoint=True)
         segments += offset_angle
 
+    # measure the angles from the first segment edge on
+    agrid = segments[0] + np.mod(agrid - segments[0], 2 * np.pi)
+
     # the indices of the bins(angles) to which each value in input
     #  array(angle_grid) belongs.
     ind_grid = (np.digitize(np.ravel(agrid), segments, right=False)).reshape(shape)
+    # pixels past the last segment edge are in no segment
+    ind_grid[ind_grid == len(segments)] = 0
 
     label_array = np.zeros(shape, dtype=np.int64)
     # radius grid for the image_shape
@@ -291,7 +296,7 @@ def segmented_rings(edges, segments, center, shape, offset_angle=0):
     # assign indices value according to angles then rings
     len_segments = len(segments)
     for i in range(len(edges) // 2):
-        indices = (edges[2 * i] <= rgrid) & (rgrid < edges[2 * i + 1])
+        indices = (edges[2 * i] <= rgrid) & (rgrid < edges[2 * i + 1]) & (ind_grid > 0)
         # Combine "segment #" and "ring #" to get unique label for each.
         label_array[indices] = ind_grid[indices] + (len_segments - 1) * i
 
-- 
2.43.0


From 2e45e9ecef49fc74313e39ffeedd99cc3922a0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:14 +0000
Subject: [PATCH 23/41] fix: mean_intensity accepts label arrays without
 background

---
 skbeam/core/roi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skbeam/core/roi.py b/skbeam/core/roi.py
index 89ceee4..3c52608 100644
--- a/skbeam/core/roi.py
+++ b/skbeam/core/roi.py
@@ -401,7 +401,8 @@ def mean_intensity(images, labeled_array, index=None):
     # handle various input for `index`
     if index is None:
         index = list(np.unique(labeled_array))
-        index.remove(0)
+        if 0 in index:
+            index.remove(0)
     try:
         len(index)
     except TypeError:
-- 
2.43.0


From c5bd50665e11d8c24a542ffc476be1d43480d916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:14 +0000
Subject: [PATCH 24/41] fix: logical_sub is right when out is one of its
 operands

---
 skbeam/core/arithmetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/arithmetic.py b/skbeam/core/arithmetic.py
index f9144a8..089af0e 100644
--- a/skbeam/core/arithmetic.py
+++ b/skbeam/core/arithmetic.py
@@ -164,4 +164,4 @@ def logical_sub(x1, x2, out=None):
            [False, False, False, False, False],
            [ True, False,  True, False,  True]], dtype=bool)
     """
-    return logical_and(x1, logical_not(logical_and(x1, x2, out), out), out)
+    return logical_and(x1, logical_not(x2), out)
-- 
2.43.0


From 7c889d05091953462acf55d471a553c73320fc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:14 +0000
Subject: [PATCH 25/41] fix: set_default works on current Python versions

---
 skbeam/core/fitting/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/fitting/models.py b/skbeam/core/fitting/models.py
index 330ad4f..1687524 100644
--- a/skbeam/core/fitting/models.py
+++ b/skbeam/core/fitting/models.py
@@ -65,7 +65,7 @@ def set_default(model_name, func_name):
     func_name : function
         function name of physics peak
     """
-    paras = inspect.getargspec(func_name)
+    paras = inspect.getfullargspec(func_name)
 
     # the first argument is independent variable, also ignored
     # default values are not considered for fitting in this function
-- 
2.43.0


From e28bfa0f1fdca0657157242f832e28ece1ed471f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:59 +0000
Subject: [PATCH 26/41] fix: bar uses the given pixel coordinates for vertical
 bars too

---
 skbeam/core/roi.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/skbeam/core/roi.py b/skbeam/core/roi.py
index 3c52608..9632adf 100644
--- a/skbeam/core/roi.py
+++ b/skbeam/core/roi.py
@@ -613,9 +613,10 @@ def bar(edges, shape, horizontal=True, values=None):
             "r=0 outward"
         )
     if values is None:
-        values = np.repeat(range(shape[0]), shape[1])
-    if not horizontal:
-        values = np.tile(range(shape[1]), shape[0])
+        if horizontal:
+            values = np.repeat(range(shape[0]), shape[1])
+        else:
+            values = np.tile(range(shape[1]), shape[0])
 
     return _make_roi(values, edges, shape)
 
-- 
2.43.0


From 56a4a5451468d17cbcaebfa67610a10e81be4e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:56 +0000
Subject: [PATCH 27/41] fix: the gridder's threads no longer share the loop
 counter that clears their buffers

---
 src/ctrans.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ctrans.c b/src/ctrans.c
index 61f7bc0..8a7263c 100644
--- a/src/ctrans.c
+++ b/src/ctrans.c
@@ -452,10 +452,11 @@ int c_grid3d(double *dout, double *d2out, unsigned long *nout, double *stderror,
     if((_d2out != NULL) && (_dout != NULL) && (_nout != NULL)){
 
       // Clear the arrays ....
-      for(j=0;j<grid_size;j++){
-        _dout[j] = 0.0;
-        _d2out[j] = 0.0;
-        _nout[j] = 0;
+      unsigned long k;
+      for(k=0;k<grid_size;k++){
+        _dout[k] = 0.0;
+        _d2out[k] = 0.0;
+        _nout[k] = 0;
       }
 
 #pragma omp for
-- 
2.43.0


From f951480317dd938fac5ad7cafc73f3ce1597d702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:56 +0000
Subject: [PATCH 28/41] fix: grid3d parses ignore_nan as the integer it is
 stored in

---
 src/ctrans.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ctrans.c b/src/ctrans.c
index 8a7263c..f3b6149 100644
--- a/src/ctrans.c
+++ b/src/ctrans.c
@@ -319,7 +319,7 @@ static PyObject* gridder_3D(PyObject *self, PyObject *args, PyObject *kwargs){
   static char *kwlist[] = { "data", "xrange", "yrange", "zrange", "ignore_nan",
                             "gridout", "grid2out", "nout", NULL };
 
-  if(!PyArg_ParseTupleAndKeywords(args, kwargs, "O(ddd)(ddd)(lll)|dOOO", kwlist,
+  if(!PyArg_ParseTupleAndKeywords(args, kwargs, "O(ddd)(ddd)(lll)|iOOO", kwlist,
 				  &_I,
 				  &grid_start[0], &grid_start[1], &grid_start[2],
 				  &grid_stop[0], &grid_stop[1], &grid_stop[2],
-- 
2.43.0


From 186d0edce85a16c4cd76d756e49673d4de6e2df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:56 +0000
Subject: [PATCH 29/41] fix: grid3d rejects data and output arrays of the wrong
 dimensions

---
 src/ctrans.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ctrans.c b/src/ctrans.c
index f3b6149..6b6a17b 100644
--- a/src/ctrans.c
+++ b/src/ctrans.c
@@ -328,7 +328,7 @@ static PyObject* gridder_3D(PyObject *self, PyObject *args, PyObject *kwargs){
     return NULL;
   }
 
-  gridI = (PyArrayObject*)PyArray_FROMANY(_I, NPY_DOUBLE, 0, 0, NPY_ARRAY_IN_ARRAY);
+  gridI = (PyArrayObject*)PyArray_FROMANY(_I, NPY_DOUBLE, 2, 2, NPY_ARRAY_IN_ARRAY);
   if(!gridI){
     goto error;
   }
@@ -375,6 +375,13 @@ static PyObject* gridder_3D(PyObject *self, PyObject *args, PyObject *kwargs){
     goto error;
   }
 
+  if((PyArray_SIZE(gridout) != PyArray_SIZE(stderror)) ||
+     (PyArray_SIZE(grid2out) != PyArray_SIZE(stderror)) ||
+     (PyArray_SIZE(Nout) != PyArray_SIZE(stderror))){
+    PyErr_SetString(PyExc_ValueError, "Output arrays must have the size of the grid");
+    goto error;
+  }
+
   // Ok now we don't touch Python Object ... Release the GIL
   Py_BEGIN_ALLOW_THREADS
 
-- 
2.43.0


From ec2f7d7de0c8d3b756f32b1de6ab7564defcbe2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:56 +0000
Subject: [PATCH 30/41] fix: ccdToQ rejects angles and UBinv of the wrong
 dimensions

---
 src/ctrans.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ctrans.c b/src/ctrans.c
index 6b6a17b..b2e74d0 100644
--- a/src/ctrans.c
+++ b/src/ctrans.c
@@ -112,6 +112,16 @@ static PyObject* ccdToQ(PyObject *self, PyObject *args, PyObject *kwargs){
     goto cleanup;
   }
 
+  if(PyArray_DIM(angles, 1) != 6){
+    PyErr_SetString(PyExc_ValueError, "Dimension 1 of angles must be 6");
+    goto cleanup;
+  }
+
+  if((PyArray_DIM(ubinv, 0) != 3) || (PyArray_DIM(ubinv, 1) != 3)){
+    PyErr_SetString(PyExc_ValueError, "UBinv must be a 3 x 3 matrix");
+    goto cleanup;
+  }
+
   ubinvp = (double *)PyArray_DATA(ubinv);
 
   nimages = PyArray_DIM(angles, 0);
-- 
2.43.0


From ffd1da2190dcda26cecdeb91eedf207b2386aab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:56 +0000
Subject: [PATCH 31/41] fix: ccdToQ sets MemoryError when its buffer cannot be
 allocated

---
 src/ctrans.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ctrans.c b/src/ctrans.c
index b2e74d0..346ee1b 100644
--- a/src/ctrans.c
+++ b/src/ctrans.c
@@ -140,6 +140,7 @@ static PyObject* ccdToQ(PyObject *self, PyObject *args, PyObject *kwargs){
   // Now create the arrays for delta-gamma pairs
   delgam = (double*)malloc(nimages * ccd.size * sizeof(double) * 2);
   if(!delgam){
+    PyErr_NoMemory();
     goto cleanup;
   }
 
-- 
2.43.0


From 54b90b61ce76d8dc962bdc11a2e9e9d8e3e51612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:56 +0000
Subject: [PATCH 32/41] fix: grid3d reports the standard error of every filled
 bin when it accumulates

---
 src/ctrans.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ctrans.c b/src/ctrans.c
index 346ee1b..065dcc6 100644
--- a/src/ctrans.c
+++ b/src/ctrans.c
@@ -549,7 +549,7 @@ int c_grid3d(double *dout, double *d2out, unsigned long *nout, double *stderror,
   // Calculate the stderror
 
   for(j=0;j<grid_size;j++){
-    if(threadData[0].nout[j] == 0){
+    if(nout[j] == 0){
       stderror[j] = 0.0;
     } else {
       double var = (d2out[j] - pow(dout[j], 2) / nout[j]) / nout[j];
-- 
2.43.0


From c6f25e914700dcbdd36a29dbbedfb3b88314ebf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:56 +0000
Subject: [PATCH 33/41] fix: a failed allocation in one gridder thread neither
 hangs the others nor leaks

---
 src/ctrans.c | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/ctrans.c b/src/ctrans.c
index 065dcc6..06c26f7 100644
--- a/src/ctrans.c
+++ b/src/ctrans.c
@@ -457,6 +457,7 @@ int c_grid3d(double *dout, double *d2out, unsigned long *nout, double *stderror,
 #pragma omp parallel shared(data, num_threads, threadData, grid_start, grid_len)
   {
     int thread_num = omp_get_thread_num();
+#pragma omp single
     num_threads = omp_get_num_threads();
 
     double *_d2out;
@@ -467,7 +468,13 @@ int c_grid3d(double *dout, double *d2out, unsigned long *nout, double *stderror,
     _dout = (double *)malloc(sizeof(double) * grid_size);
     _nout = (unsigned long *)malloc(sizeof(unsigned long) * grid_size);
 
-    if((_d2out != NULL) && (_dout != NULL) && (_nout != NULL)){
+    threadData[thread_num].dout = _dout;
+    threadData[thread_num].d2out = _d2out;
+    threadData[thread_num].nout = _nout;
+
+    int allocated = (_d2out != NULL) && (_dout != NULL) && (_nout != NULL);
+
+    if(allocated){
 
       // Clear the arrays ....
       unsigned long k;
@@ -476,10 +483,16 @@ int c_grid3d(double *dout, double *d2out, unsigned long *nout, double *stderror,
         _d2out[k] = 0.0;
         _nout[k] = 0;
       }
+    } else {
+#pragma omp atomic write
+      retval = 1;
+    }
 
+    // every thread has to reach the work-sharing loop
 #pragma omp for
-      for(i=0;i<max_data;i++){
+    for(i=0;i<max_data;i++){
 
+      if(allocated){
         double pos_double[3];
         unsigned long grid_pos[3];
         double *data_ptr = data + (i * 4);
@@ -514,12 +527,6 @@ int c_grid3d(double *dout, double *d2out, unsigned long *nout, double *stderror,
           }
         }
       }
-
-      threadData[thread_num].dout = _dout;
-      threadData[thread_num].d2out = _d2out;
-      threadData[thread_num].nout = _nout;
-    } else {
-      retval = 1;
     }
 
   } // pragma parallel
-- 
2.43.0


From 3c92d44cb16b51aa6a3851bf6c5011e8c703c319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:42 +0000
Subject: [PATCH 34/41] fix: the gridder has one thread's buffers in builds
 without OpenMP

---
 src/ctrans.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ctrans.c b/src/ctrans.c
index 06c26f7..32709d5 100644
--- a/src/ctrans.c
+++ b/src/ctrans.c
@@ -45,7 +45,7 @@
 #else
 
 #define omp_get_thread_num() 0
-#define omp_get_max_threads() 0
+#define omp_get_max_threads() 1
 #define omp_get_num_threads() 1
 
 #endif
-- 
2.43.0


From c01bad2bf594f1f3cd61c9d80fd2651f5049ee5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:42 +0000
Subject: [PATCH 35/41] fix: grid3d does not write into read-only output arrays

---
 src/ctrans.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ctrans.c b/src/ctrans.c
index 32709d5..d5edd1f 100644
--- a/src/ctrans.c
+++ b/src/ctrans.c
@@ -357,7 +357,7 @@ static PyObject* gridder_3D(PyObject *self, PyObject *args, PyObject *kwargs){
   if(_dout == NULL){
     gridout = (PyArrayObject*)PyArray_ZEROS(3, dims, NPY_DOUBLE, 0);
   } else {
-    gridout = (PyArrayObject*)PyArray_FROMANY(_dout, NPY_DOUBLE, 0, 0, NPY_ARRAY_IN_ARRAY);
+    gridout = (PyArrayObject*)PyArray_FROMANY(_dout, NPY_DOUBLE, 0, 0, NPY_ARRAY_CARRAY);
   }
   if(!gridout){
     goto error;
@@ -366,7 +366,7 @@ static PyObject* gridder_3D(PyObject *self, PyObject *args, PyObject *kwargs){
   if(_d2out == NULL){
     grid2out = (PyArrayObject*)PyArray_ZEROS(3, dims, NPY_DOUBLE, 0);
   } else {
-    grid2out = (PyArrayObject*)PyArray_FROMANY(_d2out, NPY_DOUBLE, 0, 0, NPY_ARRAY_IN_ARRAY);
+    grid2out = (PyArrayObject*)PyArray_FROMANY(_d2out, NPY_DOUBLE, 0, 0, NPY_ARRAY_CARRAY);
   }
   if(!grid2out){
     goto error;
@@ -375,7 +375,7 @@ static PyObject* gridder_3D(PyObject *self, PyObject *args, PyObject *kwargs){
   if(_nout == NULL){
     Nout = (PyArrayObject*)PyArray_ZEROS(3, dims, NPY_ULONG, 0);
   } else {
-    Nout = (PyArrayObject*)PyArray_FROMANY(_nout, NPY_ULONG, 0, 0, NPY_ARRAY_IN_ARRAY);
+    Nout = (PyArrayObject*)PyArray_FROMANY(_nout, NPY_ULONG, 0, 0, NPY_ARRAY_CARRAY);
   }
   if(!Nout){
     goto error;
-- 
2.43.0


From cd4ffa900d7fc3654a5f61b35d570e74c6b1c7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:18 +0000
Subject: [PATCH 36/41] fix: Histogram keeps values just below the upper edge
 in the last bin

---
 skbeam/core/accumulators/histogram.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skbeam/core/accumulators/histogram.pyx b/skbeam/core/accumulators/histogram.pyx
index b4cbd54..da6b45f 100644
--- a/skbeam/core/accumulators/histogram.pyx
+++ b/skbeam/core/accumulators/histogram.pyx
@@ -286,7 +286,8 @@ class Histogram:
 cdef long find_indices(coordnumtype pos, double low, double high, double binsize):
     if not (low <= pos < high):
         return -1
-    return int((pos - low) / binsize)
+    # rounding must not move a value below `high` past the last bin
+    return min(int((pos - low) / binsize), int((high - low) / binsize + 0.5) - 1)
 
 
 cdef void fillonecy(coordnumtype xval, wnumtype weight,
-- 
2.43.0


From 16c5640bd4bfc5437d60a80527688f87986a0b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:18 +0000
Subject: [PATCH 37/41] fix: n-dimensional Histogram reads non-contiguous
 coordinates correctly

---
 skbeam/core/accumulators/histogram.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skbeam/core/accumulators/histogram.pyx b/skbeam/core/accumulators/histogram.pyx
index da6b45f..f2b5d17 100644
--- a/skbeam/core/accumulators/histogram.pyx
+++ b/skbeam/core/accumulators/histogram.pyx
@@ -202,6 +202,8 @@ class Histogram:
 
 
     def _fillnd(self, coords, cnp.ndarray[wnumtype, ndim=1] weight):
+        # the coordinates are read through plain pointers
+        coords = tuple(np.ascontiguousarray(x) for x in coords)
         # allocate pointer arrays per each supported numerical types
         cdef cnp.int64_t* aint_ptr[MAX_DIMENSIONS]
         cdef int aint_count = 0
-- 
2.43.0


From e9c6baf9fb69695bd3fa5566a82019c2f28b4a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:57 +0000
Subject: [PATCH 38/41] fix: DPC phase reconstruction honours scale=False and
 negate=False

---
 skbeam/core/dpc.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/skbeam/core/dpc.py b/skbeam/core/dpc.py
index acd8d97..3f37d36 100644
--- a/skbeam/core/dpc.py
+++ b/skbeam/core/dpc.py
@@ -519,9 +519,9 @@ def reconstruct_phase_from_partial_info(
     """
     if weighting < 0 or weighting > 1:
         raise ValueError("weighting should be within the range of [0, 1]!")
-    gx = None
+    gx = dpc_state.gx
     gy = dpc_state.gy
-    if pixel_size and focus_to_det:
+    if scale and pixel_size and focus_to_det:
         # Convert to wavelength
         lambda_ = 12.4e-4 / energy
         # pre-compute the scaling factor
@@ -529,10 +529,7 @@ def reconstruct_phase_from_partial_info(
         gx = dpc_state.gx * len(dpc_state.ref_fx) * scale
         gy = dpc_state.gy * len(dpc_state.ref_fy) * scale
     if negate:
-        if gx is not None:
-            gx *= -1
-        else:
-            gx = dpc_state.gx * -1
+        gx = gx * -1
     # Reconstruct the final phase image
     phase = recon(gx, gy, scan_xstep, scan_ystep, padding, weighting)
 
-- 
2.43.0


From a52af9e0580084554a857bed5b060356d361325b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:16 +0000
Subject: [PATCH 39/41] fix: MD_dict assignment no longer prints a debugging
 line

---
 skbeam/core/utils.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/skbeam/core/utils.py b/skbeam/core/utils.py
index d7a6821..60fe581 100644
--- a/skbeam/core/utils.py
+++ b/skbeam/core/utils.py
@@ -128,7 +128,6 @@ class MD_dict(MutableMapping):
         try:
             # if the second element is a string or None, cast to named tuple
             if isinstance(val[1], string_types) or val[1] is None:
-                print("here")
                 tmp[key_split[-1]] = md_value(*val)
             # else, assume whole thing is the value with no units
             else:
-- 
2.43.0


From 251213d6ebb9824dd1e011289dc20069a44ae297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:14 +0000
Subject: [PATCH 40/41] fix: reject a grid with no steps along an axis in
 ctrans.grid3d

Every point inside the range was still stored, in a buffer of size zero.
---
 src/ctrans.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ctrans.c b/src/ctrans.c
index d5edd1f..f435a09 100644
--- a/src/ctrans.c
+++ b/src/ctrans.c
@@ -350,6 +350,11 @@ static PyObject* gridder_3D(PyObject *self, PyObject *args, PyObject *kwargs){
     goto error;
   }
 
+  if((grid_nsteps[0] == 0) || (grid_nsteps[1] == 0) || (grid_nsteps[2] == 0)){
+    PyErr_SetString(PyExc_ValueError, "The grid must have at least one step in each direction");
+    goto error;
+  }
+
   dims[0] = grid_nsteps[0];
   dims[1] = grid_nsteps[1];
   dims[2] = grid_nsteps[2];
-- 
2.43.0


From c0eedb111dc7dd02475e770f70c2e36cccd3f4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:14 +0000
Subject: [PATCH 41/41] fix: reject a negative CCD size in ctrans.ccdToQ

Two negative sizes gave an array of uninitialised values.
---
 src/ctrans.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ctrans.c b/src/ctrans.c
index f435a09..ee3b507 100644
--- a/src/ctrans.c
+++ b/src/ctrans.c
@@ -100,6 +100,11 @@ static PyObject* ccdToQ(PyObject *self, PyObject *args, PyObject *kwargs){
     return NULL;
   }
 
+  if((ccd.xSize < 0) || (ccd.ySize < 0)){
+    PyErr_SetString(PyExc_ValueError, "The size of the CCD must not be negative");
+    return NULL;
+  }
+
   ccd.size = ccd.xSize * ccd.ySize;
 
   angles = (PyArrayObject*)PyArray_FROMANY(_angles, NPY_DOUBLE, 2, 2, NPY_ARRAY_IN_ARRAY);
-- 
2.43.0

