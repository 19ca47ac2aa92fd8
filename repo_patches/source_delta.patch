From fb64f9ade43c5e637bf9d07c57ebf1a8ac1ac75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:54 +0000
Subject: [PATCH 01/40] fix: remove every atlas line within tolerance, not
 every other one

Atlas.remove_atlas_lines_range() removed items from the list it was
iterating over, so the line following a removed one was never examined.
---
 src/rascal/atlas.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rascal/atlas.py b/src/rascal/atlas.py
index a352e8d..e1bc2ad 100644
--- a/src/rascal/atlas.py
+++ b/src/rascal/atlas.py
@@ -324,7 +324,8 @@ class Atlas:
 
         """
 
-        for atlas_line in self.atlas_lines:
+        # Iterate over a copy because the list is modified on the fly
+        for atlas_line in self.atlas_lines.copy():
             if abs(atlas_line.wavelength - wavelength) < tolerance:
                 self.atlas_lines.remove(atlas_line)
 
-- 
2.43.0


From a614c069eb5dc925520bc1a229d11332ce686e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:12 +0000
Subject: [PATCH 02/40] fix: apply the line separation filter to
 wavelength-sorted lines

Selecting the brightest lines reordered the list by intensity, so that
filter_separation() compared lines that are not neighbours in wavelength.
Atlas.add() always selects the brightest lines, so blended lines passed
the min_distance filter and well separated lines were dropped.
---
 src/rascal/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index ac340b0..1fd3f5b 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -400,6 +400,8 @@ def load_calibration_lines(
         to_keep = np.argsort(np.array(intensity_list))[::-1][
             :brightest_n_lines
         ]
+        # Keep the lines in order of wavelength, filter_separation needs it
+        to_keep = np.sort(to_keep)
         element_list = element_list[to_keep]
         intensity_list = intensity_list[to_keep]
         wavelength_list = wavelength_list[to_keep]
-- 
2.43.0


From 0eda7e679c183814ac66b4824072d14ef0cd851f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:12 +0000
Subject: [PATCH 03/40] fix: filter_separation() with fewer than two lines

An isolated line was dropped as if it was blended with itself, and an
empty list (e.g. no line of an element in the wavelength range) raised
an IndexError.
---
 src/rascal/util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index 1fd3f5b..9f40155 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -215,6 +215,10 @@ def filter_separation(wavelengths, min_separation=0):
 
     """
 
+    # With fewer than two lines there is no neighbour to be separated from
+    if len(wavelengths) < 2:
+        return np.ones(len(wavelengths), dtype=bool)
+
     left_dists = np.zeros_like(wavelengths)
     left_dists[1:] = wavelengths[1:] - wavelengths[:-1]
 
-- 
2.43.0


From 4b51c2e5ac65d49b9b1a64cf7988ba8f146ed3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:12 +0000
Subject: [PATCH 04/40] fix: insert manually added pairs at their position

add_pix_wave_pair() inserted every pair at the first position, raised an
IndexError for a pixel below the first matched peak and a TypeError for
the lists left by fit(), and truncated the new pair when the matched
peaks are integers.
---
 src/rascal/calibrator.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 0673c22..0c49c20 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -1997,11 +1997,13 @@ class Calibrator:
 
         """
 
-        arg = np.argwhere(pix > self.matched_peaks)[0]
+        matched_peaks = np.asarray(self.matched_peaks, dtype="float")
+        matched_atlas = np.asarray(self.matched_atlas, dtype="float")
+        arg = np.searchsorted(matched_peaks, pix)
 
         # Only update the lists if both can be inserted
-        matched_peaks = np.insert(self.matched_peaks, arg, pix)
-        matched_atlas = np.insert(self.matched_atlas, arg, wave)
+        matched_peaks = np.insert(matched_peaks, arg, pix)
+        matched_atlas = np.insert(matched_atlas, arg, wave)
 
         self.matched_peaks = matched_peaks
         self.matched_atlas = matched_atlas
-- 
2.43.0


From ae71e72ffd6b21c8b870a7b22a55b495e39ba522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:57 +0000
Subject: [PATCH 05/40] fix: match_peaks() with more than one line within
 tolerance of a peak

The enumeration of the possible matches raised a TypeError as soon as a
peak had two atlas lines within tolerance, and matched two peaks to the
same line when they had only that one. Resolve the matches one-to-one in
the same way as fit() does: the closest line for each peak, and the
closest peak for each line.
---
 src/rascal/calibrator.py | 89 +++++++---------------------------------
 1 file changed, 14 insertions(+), 75 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 0c49c20..7e30af7 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -1820,90 +1820,29 @@ class Calibrator:
                 )
                 return fit_coeff, None, None, None, None, None, None
 
-        matched_peaks = []
-        matched_atlas = []
-        residuals = []
+        candidates = {}
 
-        atlas_lines = self.atlas.get_lines()
+        atlas_lines = np.asarray(self.atlas.get_lines())
 
         # Find all Atlas peaks within tolerance
         for p in self.peaks:
             x = self.polyval(p, fit_coeff)
-            diff = atlas_lines - x
-            diff_abs = np.abs(diff) < tolerance
-
-            if diff_abs.any():
-                matched_peaks.append(p)
-                matched_atlas.append(list(np.asarray(atlas_lines)[diff_abs]))
-                residuals.append(diff_abs)
-
-        # Create permutations:
-        candidates = [[]]
-
-        # match is a list
-        for match in matched_atlas:
-            if len(match) == 0:
-                continue
-
-            self.logger.info("matched: {}".format(match))
-
-            new_candidates = []
-            # i is an int
-            # candidates is a list of list
-
-            for i in range(len(candidates)):
-                # c is a list
-                c = candidates[i]
-
-                if len(match) == 1:
-                    c.extend(match)
-
-                else:
-                    # rep is a list of tuple
-                    rep = ~np.in1d(match, c)
-
-                    if rep.any():
-                        for j in np.argwhere(rep):
-                            new_c = c + [match[j]]
-                            new_candidates.append(new_c)
+            in_tolerance = np.abs(atlas_lines - x) < tolerance
 
-                # Only add if new_candidates is not an empty list
-                if new_candidates != []:
-                    if candidates[0] == []:
-                        candidates[0] = new_candidates
+            if in_tolerance.any():
+                candidates[p] = atlas_lines[in_tolerance]
+                self.logger.info("matched: {}".format(candidates[p]))
 
-                    else:
-                        candidates.append(new_candidates)
+        assert len(candidates) > 0, "No atlas line is within the tolerance."
 
-        if len(candidates) > 1:
-            self.logger.info(
-                "More than one match solution found, checking permutations."
-            )
-
-        self.matched_peaks = np.array(copy.deepcopy(matched_peaks))
-
-        # Check all candidates
-        best_err = 1e9
-        self.matched_atlas = None
-        self.residuals = None
-
-        for candidate in candidates:
-            matched_atlas = np.array(candidate)
-
-            fit_coeff = self.polyfit(matched_peaks, matched_atlas, fit_deg)
-
-            x = self.polyval(matched_peaks, fit_coeff)
-            residuals = np.abs(matched_atlas - x)
-            err = np.sum(residuals)
-
-            if err < best_err:
-                self.matched_atlas = matched_atlas
-                self.residuals = residuals
-
-                best_err = err
+        # Several peaks can share the same lines, each one is only used once
+        _, self.matched_peaks, self.matched_atlas = self._match_bijective(
+            candidates, list(candidates), fit_coeff
+        )
 
-        assert self.matched_atlas is not None
-        assert self.residuals is not None
+        self.residuals = self.matched_atlas - self.polyval(
+            self.matched_peaks, fit_coeff
+        )
 
         self.rms = np.sqrt(
             np.nansum(self.residuals**2.0) / len(self.residuals)
-- 
2.43.0


From fcf4c0e12302f1f786db6af7be9465357d5e2737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:57 +0000
Subject: [PATCH 06/40] fix: match_peaks() without refine and robust_refit

It raised an UnboundLocalError because only the refinement defines
fit_coeff_new. Return the matches with the given solution, as documented,
and the residuals of the solution that is returned.
---
 src/rascal/calibrator.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 7e30af7..fea7516 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -1882,7 +1882,13 @@ class Calibrator:
                 )
 
         else:
-            self.fit_coeff = fit_coeff_new
+            self.fit_coeff = fit_coeff_new if refine else fit_coeff
+            self.residuals = self.matched_atlas - self.polyval(
+                self.matched_peaks, self.fit_coeff
+            )
+            self.rms = np.sqrt(
+                np.nansum(self.residuals**2.0) / len(self.residuals)
+            )
 
         return (
             self.fit_coeff,
-- 
2.43.0


From d6d799fc08ba00ad4e0e22ca8874391fef78e612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:57 +0000
Subject: [PATCH 07/40] fix: restore the complete Hough transform when loading
 from disk

The Hough points loaded from a json file were a nested list which cannot
be binned, and the Hough lines were not restored from either format.
---
 src/rascal/houghtransform.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/rascal/houghtransform.py b/src/rascal/houghtransform.py
index 41a2699..df150de 100644
--- a/src/rascal/houghtransform.py
+++ b/src/rascal/houghtransform.py
@@ -186,8 +186,14 @@ class HoughTransform:
             bins=(xbins, ybins),
         )
 
-        # Get the line fit_coeffients from the promising bins in the
-        # histogram
+        self._sort_hough_lines()
+
+    def _sort_hough_lines(self):
+        """
+        Get the line fit_coeffients from the promising bins in the histogram.
+
+        """
+
         self.hist_sorted_arg = np.dstack(
             np.unravel_index(
                 np.argsort(self.hist.ravel())[::-1], self.hist.shape
@@ -324,7 +330,9 @@ class HoughTransform:
 
             input_json = json.load(open(filename))
 
-            self.hough_points = input_json["hough_points"]
+            self.hough_points = np.array(
+                input_json["hough_points"], dtype="float"
+            ).reshape(-1, 2)
             self.hist = np.array(input_json["hist"]).astype("float")
             self.xedges = np.array(input_json["xedges"]).astype("float")
             self.yedges = np.array(input_json["yedges"]).astype("float")
@@ -337,3 +345,5 @@ class HoughTransform:
             raise ValueError(
                 "Unknown filetype %s, it has to be npy or json" % filetype
             )
+
+        self._sort_hough_lines()
-- 
2.43.0


From 7a65a6d2e9f35433b38e3d2831ce26d2c4530f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:57 +0000
Subject: [PATCH 08/40] fix: use the loaded Hough transform in the Calibrator

fit() discarded a loaded Hough transform and generated a new one, and
save_hough_transform() did not return the transform when not saving it
to disk.
---
 src/rascal/calibrator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index fea7516..edd7c33 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -1480,7 +1480,7 @@ class Calibrator:
 
         """
 
-        self.ht.save(
+        return self.ht.save(
             filename=filename,
             fileformat=fileformat,
             delimiter=delimiter,
@@ -1503,6 +1503,8 @@ class Calibrator:
         """
 
         self.ht.load(filename=filename, filetype=filetype)
+        self.hough_points = self.ht.hough_points
+        self.hough_lines = self.ht.hough_lines
 
     def set_known_pairs(self, pix=(), wave=()):
         """
-- 
2.43.0


From ee7f4415acd2a906700366721cbab2a0a0b081a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:16 +0000
Subject: [PATCH 09/40] fix: compare every peak with every line in the
 polynomial candidates

_get_candidate_points_poly() compared the i-th peak only with the i-th
line of the atlas, and failed if there are not as many lines as peaks.
---
 src/rascal/calibrator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index edd7c33..34bd5df 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -291,7 +291,7 @@ class Calibrator:
         self.candidates = []
 
         # actual wavelengths
-        actual = np.array(self.atlas.get_lines())
+        actual = self.pairs[:, 1]
 
         n = len(self.hough_lines)
 
@@ -302,7 +302,7 @@ class Calibrator:
 
         for d in delta:
             # predicted wavelength
-            predicted = self.polyval(self.peaks, self.fit_coeff) + d
+            predicted = self.polyval(self.pairs[:, 0], self.fit_coeff) + d
             diff = np.abs(actual - predicted)
             mask = diff < candidate_tolerance
 
@@ -311,7 +311,7 @@ class Calibrator:
                     actual[mask], 1.0, predicted[mask], self.range_tolerance
                 )
                 self.candidates.append(
-                    [self.peaks[mask], actual[mask], weight]
+                    [self.pairs[:, 0][mask], actual[mask], weight]
                 )
 
     def _match_bijective(self, candidates, peaks, fit_coeff):
-- 
2.43.0


From ec5d2db0bfb2cdd87542ea464bd851bfdc9cc754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:16 +0000
Subject: [PATCH 10/40] fix: brute force fitting

The sampled indices made a 2D array, which polyfit rejects.
---
 src/rascal/calibrator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 34bd5df..f29782d 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -530,8 +530,8 @@ class Calibrator:
                 stop_n_candidateow = False
 
                 if brute_force:
-                    x_hat = x[[sample]]
-                    y_hat = y[[sample]]
+                    x_hat = x[list(sample)]
+                    y_hat = y[list(sample)]
 
                 else:
                     # Pick some random peaks
-- 
2.43.0


From a828370e5cc2250daa49678dcf2dff1f742d6694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:16 +0000
Subject: [PATCH 11/40] fix: sampling weights of peaks on the edge of a
 histogram bin

np.digitize(right=True) and np.histogram disagree about such a peak. If
the bin on its left is empty the weights are NaN and fit() fails, for
example for six equally spaced peaks.
---
 src/rascal/calibrator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index f29782d..b2e0042 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -519,7 +519,9 @@ class Calibrator:
             # weight the probability of choosing the sample by the inverse
             # line density
             h = np.histogram(peaks, bins=10)
-            prob = 1.0 / h[0][np.digitize(peaks, h[1], right=True) - 1]
+            # the last bin of the histogram includes its right edge
+            h_idx = np.clip(np.digitize(peaks, h[1]) - 1, 0, len(h[0]) - 1)
+            prob = 1.0 / h[0][h_idx]
             prob = prob / np.sum(prob)
 
         for sample in sampler_list:
-- 
2.43.0


From b9228f1415d8a3cec5f9ea93d526bb08115c2fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:53 +0000
Subject: [PATCH 12/40] fix: bound the number of redraws of rejected samples in
 fit()

Rejected samples were redrawn forever when the constraints could not be
satisfied; in brute force the same sample was retried. The sample size is
limited to the available peaks without changing the configured value.
---
 src/rascal/calibrator.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index b2e0042..da2cb2a 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -468,13 +468,13 @@ class Calibrator:
         if len(np.unique(x)) <= self.fit_deg:
             return (best_p, best_err, sum(best_mask), 0, False)
 
-        # Brute force check all combinations. If the request sample_size is
-        # the same or larger than the available lines, it is essentially a
-        # brute force.
-        if brute_force or (self.sample_size >= len(np.unique(x))):
+        # No more than the available peaks can be sampled
+        sample_size = min(self.sample_size, len(np.unique(x)))
+
+        # Brute force check all combinations.
+        if brute_force:
             idx = range(len(x))
-            sampler = itertools.combinations(idx, self.sample_size)
-            self.sample_size = len(np.unique(x))
+            sampler = itertools.combinations(idx, sample_size)
 
         else:
             sampler = range(int(max_tries))
@@ -524,6 +524,10 @@ class Calibrator:
             prob = 1.0 / h[0][h_idx]
             prob = prob / np.sum(prob)
 
+        # Rejected random samples are redrawn, but not indefinitely because it
+        # may not be possible to satisfy the constraints.
+        max_redraws = 100 * max_tries
+
         for sample in sampler_list:
             keep_trying = True
             self.logger.debug(sample)
@@ -531,6 +535,12 @@ class Calibrator:
             while keep_trying:
                 stop_n_candidateow = False
 
+                # There is nothing to redraw in brute force
+                if brute_force or max_redraws <= 0:
+                    keep_trying = False
+
+                max_redraws -= 1
+
                 if brute_force:
                     x_hat = x[list(sample)]
                     y_hat = y[list(sample)]
@@ -538,7 +548,7 @@ class Calibrator:
                 else:
                     # Pick some random peaks
                     x_hat = np.random.choice(
-                        peaks, self.sample_size, replace=False, p=prob
+                        peaks, sample_size, replace=False, p=prob
                     )
                     y_hat = []
 
-- 
2.43.0


From 9c13dc4608cd79ed56778d6663f15109942e2199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:30 +0000
Subject: [PATCH 13/40] fix: return the given fit_coeff if no fit outperforms
 it

The baseline was compared with a cost of a different normalisation, and was
never returned.
---
 src/rascal/calibrator.py | 70 ++++++++++++++++++++++++----------------
 1 file changed, 43 insertions(+), 27 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index da2cb2a..7c08805 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -508,11 +508,50 @@ class Calibrator:
         else:
             twoditp = None
 
+        def get_cost(err, fit_coeffs):
+            # M-SAC Estimator (Torr and Zisserman, 1996)
+            err = np.minimum(err, self.ransac_tolerance)
+
+            # use the Hough space density as weights for the cost function
+            wave = self.polyval(self.pixel_list, fit_coeffs)
+            gradient = self.polyval(
+                self.pixel_list, _derivative(fit_coeffs)
+            )
+            intercept = wave - gradient * self.pixel_list
+
+            # modified cost function weighted by the Hough space density
+            if (self.hough_weight is not None) & (twoditp is not None):
+                weight = self.hough_weight * np.sum(
+                    twoditp(intercept, gradient, grid=False)
+                )
+
+            else:
+                weight = 1.0
+
+            return (
+                sum(err)
+                / (len(err) - len(fit_coeffs) + 1)
+                / (weight + 1e-9)
+            )
+
         # Calculate initial error given pre-existing fit
         if fit_coeff is not None:
-            err, _, _ = self._match_bijective(candidates, peaks, fit_coeff)
-            best_cost = sum(err)
-            best_err = np.sqrt(np.mean(err**2.0))
+            err, matched_x, matched_y = self._match_bijective(
+                candidates, peaks, fit_coeff
+            )
+            mask = err < self.ransac_tolerance
+
+            # This is the best fit if it is not outperformed
+            if np.any(mask):
+                best_cost = get_cost(err, fit_coeff)
+                best_inliers = sum(mask)
+                best_p = np.asarray(fit_coeff, dtype="float")
+                self.matched_peaks = list(matched_x[mask])
+                self.matched_atlas = list(matched_y[mask])
+                best_residual = (
+                    self.polyval(matched_x[mask], best_p) - matched_y[mask]
+                )
+                best_err = np.sqrt(np.mean(best_residual**2.0))
 
         # The histogram is fixed, so pre-computed outside the loop
         if not brute_force:
@@ -619,30 +658,7 @@ class Calibrator:
                 if len(matched_x) == 0:
                     continue
 
-                # M-SAC Estimator (Torr and Zisserman, 1996)
-                err[err > self.ransac_tolerance] = self.ransac_tolerance
-
-                # use the Hough space density as weights for the cost function
-                wave = self.polyval(self.pixel_list, fit_coeffs)
-                gradient = self.polyval(
-                    self.pixel_list, _derivative(fit_coeffs)
-                )
-                intercept = wave - gradient * self.pixel_list
-
-                # modified cost function weighted by the Hough space density
-                if (self.hough_weight is not None) & (twoditp is not None):
-                    weight = self.hough_weight * np.sum(
-                        twoditp(intercept, gradient, grid=False)
-                    )
-
-                else:
-                    weight = 1.0
-
-                cost = (
-                    sum(err)
-                    / (len(err) - len(fit_coeffs) + 1)
-                    / (weight + 1e-9)
-                )
+                cost = get_cost(err, fit_coeffs)
 
                 # If this is potentially a new best fit, then handle that first
                 if cost <= best_cost:
-- 
2.43.0


From efebbb37360922d1facff9a1d523cd5f0d4e2ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:19 +0000
Subject: [PATCH 14/40] fix: refine_peaks() of peaks close to each other or to
 the edge

The windows were normalised in place, corrupting the overlapping windows (and
failing for integer spectra), and the position was offset if the window was
truncated or the initial position was not an integer.
---
 src/rascal/util.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index 9f40155..1bc15af 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -486,12 +486,10 @@ def refine_peaks(spectrum, peaks, window_width=10, distance=None):
     length = len(spectrum)
 
     for peak in peaks:
-        y = spectrum[
-            max(0, int(peak) - window_width) : min(
-                int(peak) + window_width, length
-            )
-        ]
-        y /= np.nanmax(y)
+        start = max(0, int(peak) - window_width)
+        y = spectrum[start : min(int(peak) + window_width, length)]
+        # Neighbouring windows can overlap, so do not normalise in-place
+        y = y / np.nanmax(y)
         x = np.arange(len(y))
 
         mask = np.isfinite(y) & ~np.isnan(y)
@@ -513,7 +511,7 @@ def refine_peaks(spectrum, peaks, window_width=10, distance=None):
             if centre > len(spectrum) or centre < 0:
                 continue
 
-            refined_peaks.append(peak - window_width + centre)
+            refined_peaks.append(start + centre)
 
         except RuntimeError:
             continue
-- 
2.43.0


From d58c148d9f9ce8ce1941c17cbd376a97846e7fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:19 +0000
Subject: [PATCH 15/40] fix: element names of the line list are case
 insensitive

---
 src/rascal/util.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index 1bc15af..1eae3d4 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -372,6 +372,12 @@ def load_calibration_lines(
     else:
         raise ValueError("Please provide a valid format of line list.")
 
+    # Element names are case insensitive
+    names = {name.lower(): name for name in lines[:, 0]}
+    elements = [
+        e if e in lines[:, 0] else names.get(e.lower(), e) for e in elements
+    ]
+
     # Mask elements
     mask = [(li[0] in elements) for li in lines]
     lines = lines[mask]
-- 
2.43.0


From 5494099f2fd6fcfdefa2ce9e5ea19bf444800cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:19 +0000
Subject: [PATCH 16/40] fix: load a line list file with a single line

---
 src/rascal/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index 1eae3d4..d57afda 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -364,7 +364,9 @@ def load_calibration_lines(
             )
             lines = np.loadtxt(file_path, delimiter=",", dtype=">U12")
         elif os.path.exists(linelist):
-            lines = np.loadtxt(linelist, delimiter=",", dtype=">U12")
+            lines = np.loadtxt(
+                linelist, delimiter=",", dtype=">U12", ndmin=2
+            )
         else:
             raise ValueError(
                 f"Unknown string is provided as linelist: {linelist}."
-- 
2.43.0


From bcad4c0f062a351183313fa1a0cce7a7c03fbf8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:19 +0000
Subject: [PATCH 17/40] fix: plot_fit() in log scale modified the spectrum in
 place

---
 src/rascal/plotting.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rascal/plotting.py b/src/rascal/plotting.py
index 96695d0..f460c46 100644
--- a/src/rascal/plotting.py
+++ b/src/rascal/plotting.py
@@ -742,6 +742,8 @@ def plot_fit(
 
     if spectrum is not None:
         if log_spectrum:
+            # Do not modify the spectrum of the calibrator or the user
+            spectrum = np.array(spectrum, dtype="float")
             spectrum[spectrum < 0] = 1e-100
             spectrum = np.log10(spectrum)
             vline_max = np.nanmax(spectrum) * 2.0
-- 
2.43.0


From 74e9205bb0eed28ce6449f97b846c95d44de3453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:19 +0000
Subject: [PATCH 18/40] fix: SyntheticSpectrum.set_model() did not update the
 coefficients

---
 src/rascal/synthetic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rascal/synthetic.py b/src/rascal/synthetic.py
index 64c159d..4d7442e 100644
--- a/src/rascal/synthetic.py
+++ b/src/rascal/synthetic.py
@@ -23,8 +23,7 @@ class SyntheticSpectrum:
         self.set_wavelength_limit(min_wavelength, max_wavelength)
 
         if coefficients is not None:
-            self.coefficients = coefficients
-            self.set_model(self.coefficients)
+            self.set_model(coefficients)
 
         else:
             self.model = None
@@ -36,6 +35,7 @@ class SyntheticSpectrum:
         """
 
         if isinstance(coefficients, (list, np.ndarray)):
+            self.coefficients = coefficients
             self.degree = len(coefficients) - 1
             self.model = models.polynomial(a=coefficients, degree=self.degree)
 
-- 
2.43.0


From 0e2016be70c6f58bc35df9d48467ea956ec4e30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:19 +0000
Subject: [PATCH 19/40] fix: add a single user line given as scalars

---
 src/rascal/atlas.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/rascal/atlas.py b/src/rascal/atlas.py
index e1bc2ad..7a0b239 100644
--- a/src/rascal/atlas.py
+++ b/src/rascal/atlas.py
@@ -246,6 +246,16 @@ class Atlas:
 
         """
 
+        # A single line can be given as scalars
+        if isinstance(elements, str):
+            elements = [elements]
+
+        if np.isscalar(wavelengths):
+            wavelengths = [wavelengths]
+
+        if np.isscalar(intensities):
+            intensities = [intensities]
+
         if not isinstance(elements, list):
             elements = list(elements)
 
-- 
2.43.0


From 23a4786191689d2a08057c4410b94f3f0348c9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:19 +0000
Subject: [PATCH 20/40] fix: do not fit with pairs of lines removed from the
 atlas

---
 src/rascal/calibrator.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 7c08805..ab99f8e 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -104,6 +104,7 @@ class Calibrator:
             pair
             for pair in itertools.product(self.peaks, self.atlas.get_lines())
         ]
+        pairs = np.array(pairs, dtype="float").reshape(-1, 2)
 
         if self.constrain_poly:
             # Remove pairs outside polygon
@@ -127,10 +128,10 @@ class Calibrator:
             )
 
             mask = valid_area.find_simplex(pairs) >= 0
-            self.pairs = np.array(pairs)[mask]
+            self.pairs = pairs[mask]
 
         else:
-            self.pairs = np.array(pairs)
+            self.pairs = pairs
 
     def _merge_candidates(self, candidates):
         """
@@ -1374,6 +1375,7 @@ class Calibrator:
         """
 
         self.atlas.remove_atlas_lines_range(wavelength, tolerance)
+        self._generate_pairs()
 
     def list_atlas(self):
         """
@@ -1388,6 +1390,7 @@ class Calibrator:
         """
 
         self.atlas.clear()
+        self._generate_pairs()
 
     def add_user_atlas(
         self,
@@ -1678,6 +1681,9 @@ class Calibrator:
         if self.sample_size <= fit_deg:
             self.sample_size = fit_deg + 1
 
+        # The atlas may have been modified since the pairs were generated
+        self._generate_pairs()
+
         if (self.hough_lines is None) or (self.hough_points is None):
             self.do_hough_transform()
 
-- 
2.43.0


From 9489044fa52a016f7233a2066b664c0aceca7a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:20 +0000
Subject: [PATCH 21/40] fix: inconsistent basis of the Legendre and Chebyshev
 fits

The returned coefficients are in the power basis, but the residuals, the rms,
the intercept and gradient of the trials were computed from them (and
match_peaks() evaluated them) in the Legendre/Chebyshev basis.
---
 src/rascal/calibrator.py | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index ab99f8e..2f5e4e0 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -17,6 +17,28 @@ from .houghtransform import HoughTransform
 from .atlas import Atlas
 
 
+def _legendre_fit(x, y, deg):
+    """
+    Fit with Legendre polynomials, returned in the power basis.
+
+    """
+
+    return np.polynomial.legendre.leg2poly(
+        np.polynomial.legendre.legfit(x, y, deg)
+    )
+
+
+def _chebyshev_fit(x, y, deg):
+    """
+    Fit with Chebyshev polynomials, returned in the power basis.
+
+    """
+
+    return np.polynomial.chebyshev.cheb2poly(
+        np.polynomial.chebyshev.chebfit(x, y, deg)
+    )
+
+
 class Calibrator:
     def __init__(self, peaks, spectrum=None):
         """
@@ -1651,17 +1673,18 @@ class Calibrator:
         self.brute_force = brute_force
         self.progress = progress
 
+        # The solution and all the checks are in the power basis, fit_type only
+        # selects the basis in which the samples are fitted.
+        self.polyval = np.polynomial.polynomial.polyval
+
         if self.fit_type == "poly":
             self.polyfit = np.polynomial.polynomial.polyfit
-            self.polyval = np.polynomial.polynomial.polyval
 
         elif self.fit_type == "legendre":
-            self.polyfit = np.polynomial.legendre.legfit
-            self.polyval = np.polynomial.legendre.legval
+            self.polyfit = _legendre_fit
 
         elif self.fit_type == "chebyshev":
-            self.polyfit = np.polynomial.chebyshev.chebfit
-            self.polyval = np.polynomial.chebyshev.chebval
+            self.polyfit = _chebyshev_fit
 
         else:
             raise ValueError(
-- 
2.43.0


From 25bd9b636bc20ffbd221bd8a99bdbccabd47185c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:20 +0000
Subject: [PATCH 22/40] fix: sample enough points for the degree of the given
 fit_coeff

---
 src/rascal/calibrator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 2f5e4e0..eaf2db8 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -1701,8 +1701,8 @@ class Calibrator:
             )
             self.sample_size = len(self.atlas)
 
-        if self.sample_size <= fit_deg:
-            self.sample_size = fit_deg + 1
+        if self.sample_size <= self.fit_deg:
+            self.sample_size = self.fit_deg + 1
 
         # The atlas may have been modified since the pairs were generated
         self._generate_pairs()
-- 
2.43.0


From 126ad11ea994ab0709c065d6d559a3f6294627d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:53 +0000
Subject: [PATCH 23/40] fix: use_matplotlib()/use_plotly() was undone by
 set_calibrator_properties()

---
 src/rascal/calibrator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index eaf2db8..611d5d5 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -895,6 +895,7 @@ class Calibrator:
 
         """
 
+        self.plotting_library = "matplotlib"
         self.plot_with_matplotlib = True
         self.plot_with_plotly = False
 
@@ -904,6 +905,7 @@ class Calibrator:
 
         """
 
+        self.plotting_library = "plotly"
         self.plot_with_plotly = True
         self.plot_with_matplotlib = False
 
-- 
2.43.0


From 2a27d0d879218fda8cf397eaa43f8617627b9dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:57 +0000
Subject: [PATCH 24/40] fix: vapour pressure equations take the temperature in
 Kelvin

---
 src/rascal/util.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index d57afda..e858a01 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -8,7 +8,16 @@ import pkg_resources
 def get_vapour_pressure(temperature):
     """
     Appendix A.I of https://emtoolbox.nist.gov/Wavelength/Documentation.asp
+
+    Parameters
+    ----------
+    temperature: float
+        In unit of Celcius
+
     """
+    # The equations are in Kelvin
+    T = temperature + 273.15
+
     K1 = 1.16705214528e03
     K2 = -7.24213167032e05
     K3 = -1.70738469401e01
@@ -19,7 +28,7 @@ def get_vapour_pressure(temperature):
     K8 = 4.05113405421e05
     K9 = -2.38555575678e-01
     K10 = 6.50175348448e02
-    omega = temperature + K9 / (temperature - K10)
+    omega = T + K9 / (T - K10)
     A = omega**2.0 + K1 * omega + K2
     B = K3 * omega**2.0 + K4 * omega + K5
     C = K6 * omega**2.0 + K7 * omega + K8
-- 
2.43.0


From a16b5f96358b72e6dd8f12fa74abcade1fde1fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:41 +0000
Subject: [PATCH 25/40] fix: evaluate the Hough density at (gradient,
 intercept)

---
 src/rascal/calibrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 611d5d5..8bba65a 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -545,7 +545,7 @@ class Calibrator:
             # modified cost function weighted by the Hough space density
             if (self.hough_weight is not None) & (twoditp is not None):
                 weight = self.hough_weight * np.sum(
-                    twoditp(intercept, gradient, grid=False)
+                    twoditp(gradient, intercept, grid=False)
                 )
 
             else:
-- 
2.43.0


From 9e99aa143fe032113d39f911440f826ba02ea64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:41 +0000
Subject: [PATCH 26/40] fix: offer the most supported candidates of a peak

---
 src/rascal/calibrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 8bba65a..0c54e33 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -234,7 +234,7 @@ class Calibrator:
 
                 out_peaks.extend([peak] * n)
                 out_wavelengths.extend(
-                    wavelengths_matched[np.argsort(-aggregated_count)[:n]]
+                    unique_wavelengths[np.argsort(-aggregated_count)[:n]]
                 )
 
         return out_peaks, out_wavelengths
-- 
2.43.0


From 9597eafd5ad0f2ce3a125e4510f5accb8db52fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:42 +0000
Subject: [PATCH 27/40] fix: fit() keeps the requested sample size and minimum
 matches

---
 src/rascal/calibrator.py | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 0c54e33..42e38a6 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -410,6 +410,8 @@ class Calibrator:
         candidate_tolerance,
         brute_force,
         progress,
+        sample_size,
+        minimum_matches,
     ):
         """
         Use RANSAC to sample the parameter space and give best guess
@@ -431,6 +433,10 @@ class Calibrator:
             Solve all pixel-wavelength combinations with set to True.
         progress: boolean
             Show the progress bar with tdqm if set to True.
+        sample_size: int
+            Number of samples used for fitting.
+        minimum_matches: int
+            Minimum number of matches of an accepted solution.
 
         Returns
         -------
@@ -492,7 +498,7 @@ class Calibrator:
             return (best_p, best_err, sum(best_mask), 0, False)
 
         # No more than the available peaks can be sampled
-        sample_size = min(self.sample_size, len(np.unique(x)))
+        sample_size = min(sample_size, len(np.unique(x)))
 
         # Brute force check all combinations.
         if brute_force:
@@ -732,10 +738,10 @@ class Calibrator:
                     # Check that we have enough inliers based on user specified
                     # constraints
 
-                    if n_inliers < self.minimum_matches:
+                    if n_inliers < minimum_matches:
                         self.logger.debug(
                             "Not enough matched peaks for valid solution, "
-                            "user specified {}.".format(self.minimum_matches)
+                            "user specified {}.".format(minimum_matches)
                         )
                         continue
 
@@ -1693,18 +1699,21 @@ class Calibrator:
                 "fit_type must be: (1) poly, (2) legendre or (3) chebyshev"
             )
 
-        # Reduce sample_size if it is larger than the number of atlas available
-        if self.sample_size > len(self.atlas):
+        # Reduce sample_size if it is larger than the number of atlas available,
+        # for this fit only
+        sample_size = self.sample_size
+
+        if sample_size > len(self.atlas):
             self.logger.warning(
                 "Size of sample_size is larger than the size of atlas, "
                 + "the sample_size is set to match the size of atlas = "
                 + str(len(self.atlas))
                 + "."
             )
-            self.sample_size = len(self.atlas)
+            sample_size = len(self.atlas)
 
-        if self.sample_size <= self.fit_deg:
-            self.sample_size = self.fit_deg + 1
+        if sample_size <= self.fit_deg:
+            sample_size = self.fit_deg + 1
 
         # The atlas may have been modified since the pairs were generated
         self._generate_pairs()
@@ -1712,21 +1721,23 @@ class Calibrator:
         if (self.hough_lines is None) or (self.hough_points is None):
             self.do_hough_transform()
 
-        if self.minimum_matches > len(self.atlas):
+        minimum_matches = self.minimum_matches
+
+        if minimum_matches > len(self.atlas):
             self.logger.warning(
                 "Requested minimum matches is greater than the atlas size"
                 "setting the minimum number of matches to equal the atlas"
                 "size = " + str(len(self.atlas)) + "."
             )
-            self.minimum_matches = len(self.atlas)
+            minimum_matches = len(self.atlas)
 
-        if self.minimum_matches > len(self.peaks):
+        if minimum_matches > len(self.peaks):
             self.logger.warning(
                 "Requested minimum matches is greater than the number of "
                 "peaks detected, which has a size of "
                 "size = " + str(len(self.peaks)) + "."
             )
-            self.minimum_matches = len(self.peaks)
+            minimum_matches = len(self.peaks)
 
         # TODO also check whether minimum peak utilisation is greater than
         # minimum matches.
@@ -1744,6 +1755,8 @@ class Calibrator:
             candidate_tolerance=candidate_tolerance,
             brute_force=self.brute_force,
             progress=self.progress,
+            sample_size=sample_size,
+            minimum_matches=minimum_matches,
         )
 
         peak_utilisation = n_inliers / len(self.peaks)
-- 
2.43.0


From aa79a0d0662cce1deb8c39b3db1881827b1a069f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:25 +0000
Subject: [PATCH 28/40] fix: the Hough density weighting a solution is never
 negative

---
 src/rascal/calibrator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 42e38a6..6444143 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -550,9 +550,9 @@ class Calibrator:
 
             # modified cost function weighted by the Hough space density
             if (self.hough_weight is not None) & (twoditp is not None):
-                weight = self.hough_weight * np.sum(
-                    twoditp(gradient, intercept, grid=False)
-                )
+                # the spline can overshoot, a density cannot be negative
+                density = twoditp(gradient, intercept, grid=False)
+                weight = self.hough_weight * np.sum(np.maximum(density, 0.0))
 
             else:
                 weight = 1.0
-- 
2.43.0


From 917347e7a0b50c8151a42cce886aae73045eb91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:53 +0000
Subject: [PATCH 29/40] fix: order of the initial coefficients in
 robust_polyfit()

---
 src/rascal/models.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/rascal/models.py b/src/rascal/models.py
index 68aff03..a11f3fb 100644
--- a/src/rascal/models.py
+++ b/src/rascal/models.py
@@ -1,4 +1,3 @@
-import copy
 import scipy.optimize
 import numpy as np
 
@@ -95,13 +94,11 @@ def robust_polyfit(x, y, degree=3, x0=None):
 
     x_n, y_n = normalise_input(x, y)
 
-    p_init = copy.copy(x0)
-    # Need to normalise the fit function too
-    if p_init is not None:
-        for i in range(0, degree):
-            p_init[i] *= x.std() ** i
-
-        p_init /= y.std()
+    # Need to normalise the fit function too, and the model takes the highest
+    # order first
+    if x0 is not None:
+        p_init = (np.asarray(x0) * x.std() ** np.arange(degree + 1))[::-1]
+        p_init = p_init / y.std()
     else:
         p_init = np.ones(degree + 1)
 
-- 
2.43.0


From c3b6f5d0d375144bb0dd8f5ba1fabf7e291cb99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:13 +0000
Subject: [PATCH 30/40] fix: residuals shown by plot_fit() with matplotlib

The residuals were the distances between the matched lines and the atlas,
which are all zero, instead of the distances to the fitted wavelengths.
---
 src/rascal/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rascal/plotting.py b/src/rascal/plotting.py
index f460c46..38d60aa 100644
--- a/src/rascal/plotting.py
+++ b/src/rascal/plotting.py
@@ -807,7 +807,7 @@ def plot_fit(
             calibrator.logger.info("Peak at: {} A".format(x))
 
             fitted_peaks.append(p)
-            fitted_diff.append(diff[idx])
+            fitted_diff.append(x - calibrator.polyval(p, fit_coeff))
             calibrator.logger.info(
                 "- matched to {} A".format(calibrator.atlas.get_lines()[idx])
             )
-- 
2.43.0


From 851d453d44bf1ffe39fc9f8d8e08cdde80dbedee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:13 +0000
Subject: [PATCH 31/40] fix: swapped axis labels in plot_search_space()

---
 src/rascal/plotting.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rascal/plotting.py b/src/rascal/plotting.py
index 38d60aa..7a18939 100644
--- a/src/rascal/plotting.py
+++ b/src/rascal/plotting.py
@@ -440,8 +440,8 @@ def plot_search_space(
             calibrator.max_wavelength + calibrator.range_tolerance,
         )
 
-        plt.xlabel("Wavelength / A")
-        plt.ylabel("Pixel")
+        plt.xlabel("Pixel")
+        plt.ylabel("Wavelength / A")
         plt.legend()
         plt.grid()
         plt.tight_layout()
@@ -625,7 +625,7 @@ def plot_search_space(
         fig.update_layout(
             autosize=True,
             yaxis=dict(
-                title="Pixel",
+                title="Wavelength / A",
                 range=[
                     calibrator.min_wavelength
                     - calibrator.range_tolerance * 1.1,
@@ -635,7 +635,7 @@ def plot_search_space(
                 showgrid=True,
             ),
             xaxis=dict(
-                title="Wavelength / A",
+                title="Pixel",
                 zeroline=False,
                 range=[0.0, calibrator.pixel_list.max()],
                 showgrid=True,
-- 
2.43.0


From 28bd63e8e03d8f8079bf1aa7cb3652c126754aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:32 +0000
Subject: [PATCH 32/40] fix: starting values of the line fit in refine_peaks()

The centroid and spread were divided by the number of pixels instead of the
total weight (and the spread is a variance), so that the fit of one in ten
clean lines diverged or ended somewhere else.
---
 src/rascal/util.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index e858a01..af0b59f 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -515,8 +515,11 @@ def refine_peaks(spectrum, peaks, window_width=10, distance=None):
         if n == 0:
             continue
 
-        mean = np.sum(x * y) / n
-        sigma = np.sum(y * (x - mean) ** 2) / n
+        # Centroid and spread of the line, ignoring negative counts
+        weight = np.clip(y[mask], 0, None)
+        weight = weight / np.sum(weight)
+        mean = np.sum(weight * x[mask])
+        sigma = np.sqrt(np.sum(weight * (x[mask] - mean) ** 2))
 
         try:
             popt, _ = curve_fit(gauss, x[mask], y[mask], p0=[1, mean, sigma])
-- 
2.43.0


From d42af92ea75b4910e54868dc063a0a16118726ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:29 +0000
Subject: [PATCH 33/40] fix: refine_peaks() of positions off the detector

---
 src/rascal/util.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index af0b59f..6efea2a 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -504,7 +504,13 @@ def refine_peaks(spectrum, peaks, window_width=10, distance=None):
 
     for peak in peaks:
         start = max(0, int(peak) - window_width)
-        y = spectrum[start : min(int(peak) + window_width, length)]
+        end = min(int(peak) + window_width, length)
+
+        # The window is off the detector
+        if start >= end:
+            continue
+
+        y = spectrum[start:end]
         # Neighbouring windows can overlap, so do not normalise in-place
         y = y / np.nanmax(y)
         x = np.arange(len(y))
-- 
2.43.0


From e22dbd9020fddae390e486292d0c6f671fc07866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:44 +0000
Subject: [PATCH 34/40] fix: refine_peaks() returned repeated positions of
 unsorted peaks

---
 src/rascal/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index 6efea2a..4ee0faa 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -547,8 +547,8 @@ def refine_peaks(spectrum, peaks, window_width=10, distance=None):
 
     # Remove peaks that are within rounding errors from each other from the
     # curve_fit
-    distance_mask = np.isclose(refined_peaks[:-1], refined_peaks[1:])
-    distance_mask = np.insert(distance_mask, 0, False)
+    close = np.isclose(refined_peaks[:, None], refined_peaks)
+    distance_mask = np.any(np.tril(close, k=-1), axis=1)
 
     return refined_peaks[mask & ~distance_mask]
 
-- 
2.43.0


From efc9395667cf2abe41921d5231cc4c8e8f3e2375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:52 +0000
Subject: [PATCH 35/40] fix: refine_peaks() with too few pixels to fit a line

---
 src/rascal/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index 4ee0faa..4e861e5 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -518,7 +518,8 @@ def refine_peaks(spectrum, peaks, window_width=10, distance=None):
         mask = np.isfinite(y) & ~np.isnan(y)
         n = np.sum(mask)
 
-        if n == 0:
+        # Three parameters are fitted
+        if n < 3:
             continue
 
         # Centroid and spread of the line, ignoring negative counts
-- 
2.43.0


From 243901b2feca6aef3a28c7afd2be05eb5b5c36e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:37 +0000
Subject: [PATCH 36/40] fix: do not share arrays given by the user with the
 calibrator

---
 src/rascal/calibrator.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 6444143..f31e609 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -990,7 +990,7 @@ class Calibrator:
 
         # set the pixel_list
         if pixel_list is not None:
-            self.pixel_list = np.asarray(pixel_list)
+            self.pixel_list = np.array(pixel_list)
 
         elif self.pixel_list is None:
             self.pixel_list = np.arange(self.num_pix)
@@ -1591,8 +1591,8 @@ class Calibrator:
 
         """
 
-        pix = np.asarray(pix, dtype="float").reshape(-1)
-        wave = np.asarray(wave, dtype="float").reshape(-1)
+        pix = np.array(pix, dtype="float").reshape(-1)
+        wave = np.array(wave, dtype="float").reshape(-1)
 
         assert pix.size == wave.size, ValueError(
             "Please check the length of the input arrays. pix has size {} "
@@ -1672,7 +1672,7 @@ class Calibrator:
 
         self.max_tries = max_tries
         self.fit_deg = fit_deg
-        self.fit_coeff = fit_coeff
+        self.fit_coeff = copy.deepcopy(fit_coeff)
         if fit_coeff is not None:
             self.fit_deg = len(fit_coeff) - 1
 
@@ -1863,7 +1863,10 @@ class Calibrator:
         """
 
         if fit_coeff is None:
-            fit_coeff = self.fit_coeff.copy()
+            fit_coeff = self.fit_coeff
+
+        # Do not share the coefficients with the user
+        fit_coeff = copy.deepcopy(fit_coeff)
 
         if fit_deg is None:
             fit_deg = len(fit_coeff) - 1
-- 
2.43.0


From 04ffa6bcfc66b6c4f6e3420329f4a5f4481d0d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:37 +0000
Subject: [PATCH 37/40] fix: do not share the coefficients of SyntheticSpectrum

---
 src/rascal/synthetic.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rascal/synthetic.py b/src/rascal/synthetic.py
index 4d7442e..fef249d 100644
--- a/src/rascal/synthetic.py
+++ b/src/rascal/synthetic.py
@@ -35,9 +35,11 @@ class SyntheticSpectrum:
         """
 
         if isinstance(coefficients, (list, np.ndarray)):
-            self.coefficients = coefficients
+            self.coefficients = coefficients.copy()
             self.degree = len(coefficients) - 1
-            self.model = models.polynomial(a=coefficients, degree=self.degree)
+            self.model = models.polynomial(
+                a=self.coefficients, degree=self.degree
+            )
 
         else:
             raise TypeError("Please provide a list or an numpy array.")
-- 
2.43.0


From 8ca33f241b27cc00619e31ec1434d606256fbd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:46 +0000
Subject: [PATCH 38/40] fix: candidates shown by plot_search_space() as
 (weight, pixel)

---
 src/rascal/calibrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index f31e609..83d44e2 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -172,7 +172,7 @@ class Calibrator:
             for pair in np.array(pairs).T:
                 merged.append(pair)
 
-        return np.sort(np.array(merged))
+        return np.array(merged)
 
     def _get_most_common_candidates(
         self, candidates, top_n_candidate, weighted
-- 
2.43.0


From 3df41fb8d578b583bc839aa4b0016af3c61565fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:57 +0000
Subject: [PATCH 39/40] fix: plot_fit() with matplotlib failed after a manual
 refit of a list of lines

---
 src/rascal/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rascal/plotting.py b/src/rascal/plotting.py
index 7a18939..d0cc25d 100644
--- a/src/rascal/plotting.py
+++ b/src/rascal/plotting.py
@@ -800,7 +800,7 @@ def plot_fit(
 
         first_one = True
         for p, x in zip(calibrator.matched_peaks, calibrator.matched_atlas):
-            diff = calibrator.atlas.get_lines() - x
+            diff = np.asarray(calibrator.atlas.get_lines()) - x
             idx = np.argmin(np.abs(diff))
             all_diff.append(diff[idx])
 
-- 
2.43.0


From bbc11bb804054018e4b53dd50c942d94e842aef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:56 +0000
Subject: [PATCH 40/40] fix: robust_polyfit() did not converge for pixels in a
 narrow range far from 0

Matching or refitting e.g. pixels 500..504 to 4000+5x+0.01(x-500)^2 with degree 3 left residuals of 9.7; a fit could return the line through two pairs with a residual of 1.
---
 src/rascal/models.py | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/rascal/models.py b/src/rascal/models.py
index a11f3fb..c438f61 100644
--- a/src/rascal/models.py
+++ b/src/rascal/models.py
@@ -66,6 +66,22 @@ def normalise_input(x, y):
     return x_norm, y_norm
 
 
+def _shift_polynomial(coeff, shift):
+    """
+    Returns the coefficients (lowest order first) of f(x + shift)
+    """
+    shifted = np.zeros(len(coeff))
+
+    # Horner's method
+    for c in coeff[::-1]:
+        shifted[1:], shifted[0] = (
+            shifted[:-1] + shift * shifted[1:],
+            shift * shifted[0] + c,
+        )
+
+    return shifted
+
+
 def robust_polyfit(x, y, degree=3, x0=None):
     """
     Perform a robust polyfit given a set of values (x,y).
@@ -92,13 +108,17 @@ def robust_polyfit(x, y, degree=3, x0=None):
 
     """
 
-    x_n, y_n = normalise_input(x, y)
+    # The powers of pixels far from 0 are degenerate, so centre them
+    x_mean = x.mean()
+    x_n, y_n = normalise_input(x - x_mean, y)
 
     # Need to normalise the fit function too, and the model takes the highest
     # order first
     if x0 is not None:
-        p_init = (np.asarray(x0) * x.std() ** np.arange(degree + 1))[::-1]
-        p_init = p_init / y.std()
+        p_init = _shift_polynomial(x0, x_mean) * x.std() ** np.arange(
+            degree + 1
+        )
+        p_init = p_init[::-1] / y.std()
     else:
         p_init = np.ones(degree + 1)
 
@@ -117,7 +137,7 @@ def robust_polyfit(x, y, degree=3, x0=None):
     for i in range(0, degree):
         p[i] /= x.std() ** (degree - i)
 
-    return p[::-1]
+    return _shift_polynomial(p[::-1], -x_mean)
 
 
 # What is this for?
-- 
2.43.0

