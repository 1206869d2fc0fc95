From a45d916f269c75bcd137418b23e724d1c8d3f6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:12 +0000
Subject: [PATCH 01/14] fix: use the k parameter for the lower Tukey fence

directional_tukey_filter(k=...) only moved the upper fence; the lower fence
always used 1.5.
---
 rdtools/filtering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/filtering.py b/rdtools/filtering.py
index 7c3759d..1716546 100644
--- a/rdtools/filtering.py
+++ b/rdtools/filtering.py
@@ -1029,7 +1029,7 @@ def _tukey_fence(series, k=1.5):
     p75 = series.quantile(0.75)
     iqr = p75 - p25
     upper_fence = k * iqr + p75
-    lower_fence = p25 - 1.5 * iqr
+    lower_fence = p25 - k * iqr
     return lower_fence, upper_fence
 
 
-- 
2.43.0


From cca09a4019febe3c88c74fd091637a63ecd7cef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:12 +0000
Subject: [PATCH 02/14] fix: subtract the tie correction in the Mann-Kendall
 variance

Var(S) = [n(n-1)(2n+5) - sum t(t-1)(2t+5)] / 18; adding the correction
understates the significance of trends in series with repeated values.
---
 rdtools/degradation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/degradation.py b/rdtools/degradation.py
index 1698b36..bbeb258 100644
--- a/rdtools/degradation.py
+++ b/rdtools/degradation.py
@@ -401,7 +401,7 @@ def _mk_test(x, alpha=0.05):
         tp = np.zeros(unique_x.shape)
         for i in range(len(unique_x)):
             tp[i] = sum(unique_x[i] == x)
-        var_s = (n * (n - 1) * (2 * n + 5) +
+        var_s = (n * (n - 1) * (2 * n + 5) -
                  np.sum(tp * (tp - 1) * (2 * tp + 5))) / 18
 
     if s > 0:
-- 
2.43.0


From d8841ef1857ca3240d0339be1fc59d20008b2af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:12 +0000
Subject: [PATCH 03/14] fix: do not rename the caller's series in OLS and
 classical decomposition

---
 rdtools/degradation.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rdtools/degradation.py b/rdtools/degradation.py
index bbeb258..d3888bb 100644
--- a/rdtools/degradation.py
+++ b/rdtools/degradation.py
@@ -34,8 +34,7 @@ def degradation_ols(energy_normalized, confidence_level=68.2):
         and least squares RegressionResults object ('ols_results')
     '''
 
-    energy_normalized.name = 'energy_normalized'
-    df = energy_normalized.to_frame()
+    df = energy_normalized.to_frame(name='energy_normalized')
 
     # calculate a years column as x value for regression, ignoring leap years
     day_diffs = (df.index - df.index[0])
@@ -109,8 +108,7 @@ def degradation_classical_decomposition(energy_normalized,
         Mann-Kendall test trend ('mk_test_trend')
     '''
 
-    energy_normalized.name = 'energy_normalized'
-    df = energy_normalized.to_frame()
+    df = energy_normalized.to_frame(name='energy_normalized')
 
     df_check_freq = df.copy()
 
-- 
2.43.0


From 13e33d35c510ffb9b9a0ea996afa0450e8a0194c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:12 +0000
Subject: [PATCH 04/14] fix: do not modify the user's ad_hoc_filter while
 applying it

---
 rdtools/analysis_chains.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rdtools/analysis_chains.py b/rdtools/analysis_chains.py
index 9492bad..58b8465 100644
--- a/rdtools/analysis_chains.py
+++ b/rdtools/analysis_chains.py
@@ -619,7 +619,7 @@ class TrendAnalysis:
                 warnings.warn(
                     "ad_hoc_filter contains NaN values; setting to False (excluding)"
                 )
-                ad_hoc_filter.loc[ad_hoc_filter.isnull()] = False
+                ad_hoc_filter = ad_hoc_filter.where(ad_hoc_filter.notnull(), False)
 
             if not filter_components.index.equals(ad_hoc_filter.index):
                 warnings.warn(
@@ -709,7 +709,9 @@ class TrendAnalysis:
                 warnings.warn(
                     "aggregated ad_hoc_filter contains NaN values; setting to False (excluding)"
                 )
-                ad_hoc_filter_aggregated.loc[ad_hoc_filter_aggregated.isnull()] = False
+                ad_hoc_filter_aggregated = ad_hoc_filter_aggregated.where(
+                    ad_hoc_filter_aggregated.notnull(), False
+                )
 
             if not filter_components_aggregated.index.equals(
                 ad_hoc_filter_aggregated.index
-- 
2.43.0


From 31911144dc40238f7dffb527b22335153a0c5552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:12 +0000
Subject: [PATCH 05/14] fix: reject an unrecognised pv_input

---
 rdtools/analysis_chains.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rdtools/analysis_chains.py b/rdtools/analysis_chains.py
index 58b8465..7cd620a 100644
--- a/rdtools/analysis_chains.py
+++ b/rdtools/analysis_chains.py
@@ -141,6 +141,8 @@ class TrendAnalysis:
         elif pv_input == "energy":
             self.pv_power = None
             self.pv_energy = pv
+        else:
+            raise ValueError("pv_input must be either 'power' or 'energy'")
 
         self.temperature_cell = temperature_cell
         self.temperature_ambient = temperature_ambient
-- 
2.43.0


From 96dc0e1807cdb8ece3bd9266c88d02e193d983e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:12 +0000
Subject: [PATCH 06/14] fix: visit invalid-interval groups in time order in the
 SRR Monte Carlo

The levels are concatenated and written back in row order, so set iteration
order (e.g. {8, 1}) assigned them to the wrong intervals.
---
 rdtools/soiling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/soiling.py b/rdtools/soiling.py
index 92a3bfb..005d4d0 100644
--- a/rdtools/soiling.py
+++ b/rdtools/soiling.py
@@ -456,7 +456,7 @@ class SRRAnalysis():
                     invalid_intervals['previous_end'].fillna(1.0)
                 invalid_intervals['next_start'] = \
                     invalid_intervals['next_start'].fillna(1.0)
-                groups = set(invalid_intervals.group)
+                groups = sorted(set(invalid_intervals.group))
                 replace_levels = []
 
                 if len(groups) > 0:
-- 
2.43.0


From c2b9ae244054ff6c936d7f49706266fd5a957337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:12 +0000
Subject: [PATCH 07/14] fix: return YoY_values for
 uncertainty_method='circular_block'

---
 rdtools/degradation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rdtools/degradation.py b/rdtools/degradation.py
index d3888bb..69dd39b 100644
--- a/rdtools/degradation.py
+++ b/rdtools/degradation.py
@@ -343,6 +343,7 @@ def degradation_year_on_year(energy_normalized, recenter=True,
 
         # Save calculation information
         calc_info = {
+            'YoY_values': yoy_result,
             'renormalizing_factor': renorm,
             'exceedance_level': exceedance_level,
             'usage_of_points': df['usage_of_points'],
-- 
2.43.0


From a80b4a057c016501e4abebfd89b4467669b84583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:12 +0000
Subject: [PATCH 08/14] fix: leave the weight of missing energy out of
 aggregation_insol

Points whose normalized energy is missing still counted in the denominator,
biasing the weighted average low.
---
 rdtools/aggregation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rdtools/aggregation.py b/rdtools/aggregation.py
index 4116c91..508d104 100644
--- a/rdtools/aggregation.py
+++ b/rdtools/aggregation.py
@@ -22,6 +22,8 @@ def aggregation_insol(energy_normalized, insolation, frequency='D'):
     aggregated : pandas.Series
         Insolation weighted average, aggregated at frequency
     '''
+    # only weight points that contribute to the average
+    insolation = insolation.where(energy_normalized.notnull())
     aggregated = (insolation * energy_normalized).resample(frequency, origin='start_day').sum() / \
         insolation.resample(frequency, origin='start_day').sum()
 
-- 
2.43.0


From 6eec7731abfb847bd11c74e607385279758b25c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:13 +0000
Subject: [PATCH 09/14] fix: report CODS soiling loss bound in percent for
 small soiling signals

soiling_loss is documented (and used by soiling_cods) in percent, but the
upper bound returned when the soiling signal is small was a fraction.
---
 rdtools/soiling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/soiling.py b/rdtools/soiling.py
index 005d4d0..bf710be 100644
--- a/rdtools/soiling.py
+++ b/rdtools/soiling.py
@@ -1767,7 +1767,7 @@ class CODSAnalysis():
             self.residual_shift = results[np.argmax(weights)]['residual_shift']
             YOY = RdToolsDeg.degradation_year_on_year(pi)
             self.degradation = [YOY[0], YOY[1][0], YOY[1][1]]
-            self.soiling_loss = [0, 0, (1 - result_df.soiling_ratio).mean()]
+            self.soiling_loss = [0, 0, (1 - result_df.soiling_ratio).mean() * 100]
             self.small_soiling_signal = True
             self.errors = (
                 'Soiling signal is small relative to the noise. '
-- 
2.43.0


From ed511109f98aadf24eb7dd87eeeb6b0e71317f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:13 +0000
Subject: [PATCH 10/14] fix: return the soiling ratio interval of soiling_cods
 with the lower bound first

The bounds of the soiling loss were turned into a soiling ratio without
swapping them, so the upper bound came first, unlike every other interval.
---
 rdtools/soiling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rdtools/soiling.py b/rdtools/soiling.py
index bf710be..86fd090 100644
--- a/rdtools/soiling.py
+++ b/rdtools/soiling.py
@@ -2423,7 +2423,8 @@ def soiling_cods(energy_normalized_daily,
         **kwargs)
 
     sr = 1 - CODS.soiling_loss[0] / 100
-    sr_ci = 1 - np.array(CODS.soiling_loss[1:3]) / 100
+    # the highest loss is the lower bound of the soiling ratio
+    sr_ci = 1 - np.array(CODS.soiling_loss[2:0:-1]) / 100
 
     return sr, sr_ci, CODS.degradation[0], np.array(CODS.degradation[1:3]), \
         CODS.result_df
-- 
2.43.0


From cd6298103b2c33b8d31c70ba7a2fec070168c2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:09 +0000
Subject: [PATCH 11/14] fix: state pvlib_clearsky_filter's actual detection
 defaults in its docstring

---
 rdtools/filtering.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rdtools/filtering.py b/rdtools/filtering.py
index 1716546..1abd2db 100644
--- a/rdtools/filtering.py
+++ b/rdtools/filtering.py
@@ -197,17 +197,17 @@ def pvlib_clearsky_filter(
     max_diff : float, default 75
         Threshold value for agreement between maxima of measured and
         clearsky values in each interval, see Eq. 7 in [1]. [W/m2]
-    lower_line_length : float, default -5
+    lower_line_length : float, default -45
         Lower limit of line length criterion from Eq. 8 in [1].
         Criterion satisfied when lower_line_length < line length difference
         < upper_line_length.
-    upper_line_length : float, default 10
+    upper_line_length : float, default 80
         Upper limit of line length criterion from Eq. 8 in [1].
-    var_diff : float, default 0.005
+    var_diff : float, default 0.032
         Threshold value in Hz for the agreement between normalized
         standard deviations of rate of change in irradiance, see Eqs. 9
         through 11 in [1].
-    slope_dev : float, default 8
+    slope_dev : float, default 75
         Threshold value for agreement between the largest magnitude of
         change in successive values, see Eqs. 12 through 14 in [1].
     lookup_parameters : bool, default False
-- 
2.43.0


From 7c437977a7235d077e49438494060a47eed4a81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:09 +0000
Subject: [PATCH 12/14] fix: name the 'ols_result' entry of calc_info correctly
 in docstrings

---
 rdtools/degradation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rdtools/degradation.py b/rdtools/degradation.py
index 69dd39b..4053c6a 100644
--- a/rdtools/degradation.py
+++ b/rdtools/degradation.py
@@ -31,7 +31,7 @@ def degradation_ols(energy_normalized, confidence_level=68.2):
         A dict that contains slope, intercept,
         root mean square error of regression ('rmse'), standard error
         of the slope ('slope_stderr'), intercept ('intercept_stderr'),
-        and least squares RegressionResults object ('ols_results')
+        and least squares RegressionResults object ('ols_result')
     '''
 
     df = energy_normalized.to_frame(name='energy_normalized')
@@ -103,7 +103,7 @@ def degradation_classical_decomposition(energy_normalized,
         A dict that contains slope, intercept,
         root mean square error of regression ('rmse'), standard error
         of the slope ('slope_stderr'), intercept ('intercept_stderr'),
-        and least squares RegressionResults object ('ols_results'),
+        and least squares RegressionResults object ('ols_result'),
         pandas series for the annual rolling mean ('series'), and
         Mann-Kendall test trend ('mk_test_trend')
     '''
-- 
2.43.0


From 247a7d73919249989b0432489bb420c23f2b33b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:20 +0000
Subject: [PATCH 13/14] fix: set every documented CODSAnalysis attribute when
 the soiling signal is small

---
 rdtools/soiling.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rdtools/soiling.py b/rdtools/soiling.py
index 86fd090..67d971a 100644
--- a/rdtools/soiling.py
+++ b/rdtools/soiling.py
@@ -1153,7 +1153,7 @@ class CODSAnalysis():
     small_soiling_signal : bool
         Whether or not the signal is deemed too small to infer anything
         about it
-    adf_res : list
+    adf_results : list
         The results of an Augmented Dickey-Fuller test (telling whether the
         residuals are stationary or not)
 
@@ -1765,6 +1765,8 @@ class CODSAnalysis():
         if np.sum(small_soiling_signal) > nr_models / 2:
             self.result_df = result_df
             self.residual_shift = results[np.argmax(weights)]['residual_shift']
+            self.RMSE = results[np.argmax(weights)]['RMSE']
+            self.adf_results = results[np.argmax(weights)]['adf_res']
             YOY = RdToolsDeg.degradation_year_on_year(pi)
             self.degradation = [YOY[0], YOY[1][0], YOY[1][1]]
             self.soiling_loss = [0, 0, (1 - result_df.soiling_ratio).mean() * 100]
-- 
2.43.0


From 6b2dd157bf1f7c8e798847d6bf09a654353c9e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:37 +0000
Subject: [PATCH 14/14] fix: honour ffill when the Kalman step detects cleaning
 events itself

---
 rdtools/soiling.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rdtools/soiling.py b/rdtools/soiling.py
index 67d971a..3c99829 100644
--- a/rdtools/soiling.py
+++ b/rdtools/soiling.py
@@ -1388,7 +1388,8 @@ class CODSAnalysis():
                     clean_pruning_sensitivity=clean_pruning_sensitivity,
                     perfect_cleaning=perfect_cleaning,
                     process_noise=process_noise,
-                    renormalize_SR=renormalize_SR)
+                    renormalize_SR=renormalize_SR,
+                    ffill=ffill)
                 soiling_ratio.append(kdf.soiling_ratio)
                 soiling_dfs.append(kdf)
 
@@ -2039,7 +2040,7 @@ class CODSAnalysis():
                         " indices of zs_series; they must be of the same length")
             else:  # If no prescient cleaning events, detect cleaning events
                 ce, rm9 = _rolling_median_ce_detection(
-                    zs_series.index, zs_series, tuner=0.5)
+                    zs_series.index, zs_series, ffill=ffill, tuner=0.5)
                 prescient_cleaning_events = \
                     _collapse_cleaning_events(ce, rm9.diff().values, 5)
 
-- 
2.43.0

