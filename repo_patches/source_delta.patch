From 95c8359b2491a904e33f5512d5710759a6c92feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:38 +0000
Subject: [PATCH 01/41] fix: energy_from_power no longer extrapolates
 instantaneous power past the last valid sample

DataFrame.interpolate(method='time') fills trailing NaN with the last value, so
instantaneous power series with trailing NaN, or whose last target interval is
only partly covered, were given energy nobody measured.
---
 rdtools/normalization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/normalization.py b/rdtools/normalization.py
index 23784a0..636b225 100644
--- a/rdtools/normalization.py
+++ b/rdtools/normalization.py
@@ -507,7 +507,7 @@ def _aggregate(time_series, target_frequency, max_timedelta, series_type):
     t_diffs_hours = t_diffs / 10**9 / 3600.0
     if series_type == 'instantaneous':
         # interpolate with trapz sum
-        time_series = time_series.interpolate(method='time')
+        time_series = time_series.interpolate(method='time', limit_area='inside')
         time_series[gap_mask] = np.nan
         values = time_series.values
         series_sum = (values[1:] + values[:-1]) / 2 * t_diffs_hours
-- 
2.43.0


From 7d90225b9fe728b91d6ce5c3901fb7d403a1f364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:38 +0000
Subject: [PATCH 02/41] fix: energy_from_power keeps the instantaneous step
 that follows a gap

Masking the interpolated values instead of the steps dropped the (valid) step
after every gap longer than max_timedelta and after leading NaN, although only
intervals greater than max_timedelta are documented to be omitted.
---
 rdtools/normalization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rdtools/normalization.py b/rdtools/normalization.py
index 636b225..ccfde59 100644
--- a/rdtools/normalization.py
+++ b/rdtools/normalization.py
@@ -506,11 +506,11 @@ def _aggregate(time_series, target_frequency, max_timedelta, series_type):
     t_diffs = np.diff(time_series.index.view('int64'))
     t_diffs_hours = t_diffs / 10**9 / 3600.0
     if series_type == 'instantaneous':
-        # interpolate with trapz sum
+        # interpolate with trapz sum, omitting only the steps that lie in gaps
         time_series = time_series.interpolate(method='time', limit_area='inside')
-        time_series[gap_mask] = np.nan
         values = time_series.values
         series_sum = (values[1:] + values[:-1]) / 2 * t_diffs_hours
+        series_sum[gap_mask.values[1:]] = np.nan
     elif series_type == 'right_labeled':
         # bfill and rectangular sum
         time_series = time_series.bfill()
-- 
2.43.0


From 0f7ab4955c201fb9970b81142e220b6e1ec1232d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:11 +0000
Subject: [PATCH 03/41] fix: energy_from_power accepts max_timedelta longer
 than 1e16 ns

Formatting the limit as text gave exponent notation (e.g. '1.14e+16 ns') from
about 116 days on, which pandas cannot parse, so a long max_timedelta raised.
---
 rdtools/normalization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/normalization.py b/rdtools/normalization.py
index ccfde59..d57dd2f 100644
--- a/rdtools/normalization.py
+++ b/rdtools/normalization.py
@@ -416,7 +416,7 @@ def energy_from_power(power, target_frequency=None, max_timedelta=None,
     else:
         max_interval_nanoseconds = max_timedelta.total_seconds() * 10.0**9
     # set max_timedelta for use in interpolate and _aggregate
-    max_timedelta = pd.to_timedelta(f'{max_interval_nanoseconds} ns')
+    max_timedelta = pd.to_timedelta(max_interval_nanoseconds, unit='ns')
     try:
         freq_interval_size_ns = \
             pd.tseries.frequencies.to_offset(target_frequency).nanos
-- 
2.43.0


From af7381f0a236e60e5a2e17efbece2ea7b827602e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:48 +0000
Subject: [PATCH 04/41] fix: energy_from_power returns NaN energy for an
 all-NaN power series

It raised IndexError because the leading-NaN mask looked up the first valid
sample unconditionally.
---
 rdtools/normalization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/normalization.py b/rdtools/normalization.py
index d57dd2f..e0274c7 100644
--- a/rdtools/normalization.py
+++ b/rdtools/normalization.py
@@ -498,7 +498,7 @@ def _aggregate(time_series, target_frequency, max_timedelta, series_type):
     max_interval_nanoseconds = max_timedelta.total_seconds() * 10.0**9
 
     gap_mask = t_diffs > max_interval_nanoseconds
-    if time_series.index[0] != union_index[0]:
+    if len(time_series) > 0 and time_series.index[0] != union_index[0]:
         # mask leading NaNs
         gap_mask[:time_series.index[0]] = True
 
-- 
2.43.0


From 38c548901ffa929ba1bc2268b01293e04dbde415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:44 +0000
Subject: [PATCH 05/41] fix: aggregation_insol ignores the insolation of points
 without normalized energy

A NaN normalized energy was skipped in the weighted sum but its insolation was
still counted in the denominator, biasing the average towards zero.
---
 rdtools/aggregation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rdtools/aggregation.py b/rdtools/aggregation.py
index 4116c91..8a7da45 100644
--- a/rdtools/aggregation.py
+++ b/rdtools/aggregation.py
@@ -22,7 +22,10 @@ def aggregation_insol(energy_normalized, insolation, frequency='D'):
     aggregated : pandas.Series
         Insolation weighted average, aggregated at frequency
     '''
-    aggregated = (insolation * energy_normalized).resample(frequency, origin='start_day').sum() / \
-        insolation.resample(frequency, origin='start_day').sum()
+    weighted = insolation * energy_normalized
+    # only points that contribute to the numerator may contribute to the weights
+    weights = insolation.where(weighted.notna())
+    aggregated = weighted.resample(frequency, origin='start_day').sum() / \
+        weights.resample(frequency, origin='start_day').sum()
 
     return aggregated
-- 
2.43.0


From 1507f261828ecb81d86c8727eedc00b610ece4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:44 +0000
Subject: [PATCH 06/41] fix: Mann-Kendall variance subtracts the tie correction

Var(S) = [n(n-1)(2n+5) - sum t(t-1)(2t+5)] / 18; the correction for ties was
added, making trends in data with ties look less significant than they are.
---
 rdtools/degradation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/degradation.py b/rdtools/degradation.py
index 1698b36..bbeb258 100644
--- a/rdtools/degradation.py
+++ b/rdtools/degradation.py
@@ -401,7 +401,7 @@ def _mk_test(x, alpha=0.05):
         tp = np.zeros(unique_x.shape)
         for i in range(len(unique_x)):
             tp[i] = sum(unique_x[i] == x)
-        var_s = (n * (n - 1) * (2 * n + 5) +
+        var_s = (n * (n - 1) * (2 * n + 5) -
                  np.sum(tp * (tp - 1) * (2 * tp + 5))) / 18
 
     if s > 0:
-- 
2.43.0


From c4205b91bf1c232571489b0912f1873661dacf84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:23 +0000
Subject: [PATCH 07/41] fix: usage_of_points counts a point matched by several
 rows if any slope is valid

Only the first row matched to a point was looked at, so a point whose first
match had NaN energy was reported as never used although later rows used it.
---
 rdtools/degradation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rdtools/degradation.py b/rdtools/degradation.py
index bbeb258..a9b8423 100644
--- a/rdtools/degradation.py
+++ b/rdtools/degradation.py
@@ -286,7 +286,9 @@ def degradation_year_on_year(energy_normalized, recenter=True,
 
     yoy_result = df.yoy.dropna()
 
-    df_right = df.set_index(df.dt_right).drop_duplicates('dt_right')
+    # a point matched from several rows is used if any of those slopes is valid
+    df_right = df[df.yoy.notnull()].drop_duplicates('dt_right')
+    df_right = df_right.set_index(df_right.dt_right)
     df['usage_of_points'] = df.yoy.notnull().astype(int).add(
                 df_right.yoy.notnull().astype(int), fill_value=0)
 
-- 
2.43.0


From 0c3a5210f52fd564a73151c1065b73a175defcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:23 +0000
Subject: [PATCH 08/41] fix: degradation_ols and
 degradation_classical_decomposition leave the caller's series name alone

---
 rdtools/degradation.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rdtools/degradation.py b/rdtools/degradation.py
index a9b8423..18d6ae3 100644
--- a/rdtools/degradation.py
+++ b/rdtools/degradation.py
@@ -34,8 +34,7 @@ def degradation_ols(energy_normalized, confidence_level=68.2):
         and least squares RegressionResults object ('ols_results')
     '''
 
-    energy_normalized.name = 'energy_normalized'
-    df = energy_normalized.to_frame()
+    df = energy_normalized.to_frame(name='energy_normalized')
 
     # calculate a years column as x value for regression, ignoring leap years
     day_diffs = (df.index - df.index[0])
@@ -109,8 +108,7 @@ def degradation_classical_decomposition(energy_normalized,
         Mann-Kendall test trend ('mk_test_trend')
     '''
 
-    energy_normalized.name = 'energy_normalized'
-    df = energy_normalized.to_frame()
+    df = energy_normalized.to_frame(name='energy_normalized')
 
     df_check_freq = df.copy()
 
-- 
2.43.0


From 912848fda6fb9a4d8526b9f5b29e8e94075e0dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:17 +0000
Subject: [PATCH 09/41] fix: directional_tukey_filter applies k to the lower
 fence too

The lower fence was hard-coded to 1.5*IQR whatever k was requested.
---
 rdtools/filtering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/filtering.py b/rdtools/filtering.py
index 7c3759d..1716546 100644
--- a/rdtools/filtering.py
+++ b/rdtools/filtering.py
@@ -1029,7 +1029,7 @@ def _tukey_fence(series, k=1.5):
     p75 = series.quantile(0.75)
     iqr = p75 - p25
     upper_fence = k * iqr + p75
-    lower_fence = p25 - 1.5 * iqr
+    lower_fence = p25 - k * iqr
     return lower_fence, upper_fence
 
 
-- 
2.43.0


From fb8bd3351d794048ad5f96d25bfd63da2e129e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:17 +0000
Subject: [PATCH 10/41] fix: hour_angle_filter gives the same answer in every
 time zone

The hour angle was not wrapped to [-180, 180), so it could be off by a full turn
depending on the time zone of the index and the longitude, and pvlib is an hour
off in local time on days with a DST transition.  The same instants were kept or
dropped depending on how they were labelled.
---
 rdtools/filtering.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rdtools/filtering.py b/rdtools/filtering.py
index 1716546..e39ea1b 100644
--- a/rdtools/filtering.py
+++ b/rdtools/filtering.py
@@ -1102,8 +1102,11 @@ def hour_angle_filter(series, lat, lon, min_hour_angle=-30, max_hour_angle=30):
     times = series.index
     spa = pvlib.solarposition.get_solarposition(times, lat, lon)
     eot = spa["equation_of_time"]
-    hour_angle = pvlib.solarposition.hour_angle(times, lon, eot)
-    hour_angle = pd.Series(hour_angle, index=times)
+    # evaluate in UTC (local time is ambiguous on days with a DST transition) and
+    # express the angle in [-180, 180) regardless of the UTC date it falls on
+    utc_times = times if times.tz is None else times.tz_convert('UTC')
+    hour_angle = pvlib.solarposition.hour_angle(utc_times, lon, eot)
+    hour_angle = (pd.Series(hour_angle, index=times) + 180) % 360 - 180
     mask = (hour_angle >= min_hour_angle) & (hour_angle <= max_hour_angle)
 
     return mask
-- 
2.43.0


From 14746d59022a3c99f27c67d990e850b77f654bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:10 +0000
Subject: [PATCH 11/41] fix: xgboost_clip_filter accepts a time series whose
 index is named 'date'

---
 rdtools/filtering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/filtering.py b/rdtools/filtering.py
index e39ea1b..c0efc32 100644
--- a/rdtools/filtering.py
+++ b/rdtools/filtering.py
@@ -746,7 +746,7 @@ def _calculate_xgboost_model_features(df, sampling_frequency):
     )
     # Get the max value for the day and see how each value compares
     df["date"] = list(pd.to_datetime(pd.Series(df.index)).dt.date)
-    df["daily_max"] = df.groupby(["date"])["scaled_value"].transform("max")
+    df["daily_max"] = df["scaled_value"].groupby(df["date"].values).transform("max")
 
     # Get percentage of daily max
     df["percent_daily_max"] = df["scaled_value"] / (df["daily_max"] + 0.00001)
-- 
2.43.0


From 1c43c02eb332622eb926f0f7a66e29e91c6f3b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:10 +0000
Subject: [PATCH 12/41] fix: xgboost_clip_filter does not carry a day's
 clipping range into later days

---
 rdtools/filtering.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rdtools/filtering.py b/rdtools/filtering.py
index c0efc32..276b6b7 100644
--- a/rdtools/filtering.py
+++ b/rdtools/filtering.py
@@ -884,11 +884,13 @@ def xgboost_clip_filter(power_ac, mounting_type="fixed"):
     power_ac_df = _calculate_xgboost_model_features(power_ac_df, sampling_frequency)
     # Add back in XGB predictions for the original dataframe
     power_ac_df["xgb_predictions"] = xgb_predictions.astype(bool)
-    power_ac_df_clipping = power_ac_df[power_ac_df["xgb_predictions"].fillna(False)]
+    # Keep every day in the index (NaN where nothing was predicted as clipping), so
+    # that the values of one day are not carried forward into later days.
+    clipping_values = power_ac_df["scaled_value"].where(power_ac_df["xgb_predictions"])
     # Make everything between the
     # max and min values found for clipping each day as clipping.
-    power_ac_df_clipping_max = power_ac_df_clipping["scaled_value"].resample("D").max()
-    power_ac_df_clipping_min = power_ac_df_clipping["scaled_value"].resample("D").min()
+    power_ac_df_clipping_max = clipping_values.resample("D").max()
+    power_ac_df_clipping_min = clipping_values.resample("D").min()
     power_ac_df["daily_clipping_min"] = power_ac_df_clipping_min.reindex(
         index=power_ac_df.index, method="ffill"
     )
-- 
2.43.0


From 2286db3126f86bd35b09a6c4c1287a23299b9e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:19 +0000
Subject: [PATCH 13/41] fix: sensor_clearsky_filter is only used in a sensor
 analysis

---
 rdtools/analysis_chains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/analysis_chains.py b/rdtools/analysis_chains.py
index 9492bad..eadd8c2 100644
--- a/rdtools/analysis_chains.py
+++ b/rdtools/analysis_chains.py
@@ -602,7 +602,7 @@ class TrendAnalysis:
                 "clearsky_filter"
             )
 
-        if "sensor_clearsky_filter" in self.filter_params:
+        if case == "sensor" and "sensor_clearsky_filter" in self.filter_params:
             filter_components["sensor_clearsky_filter"] = _call_clearsky_filter(
                 "sensor_clearsky_filter"
             )
-- 
2.43.0


From 306f161a7bba51c1961088a9491d7f430fb5229a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:30 +0000
Subject: [PATCH 14/41] fix: analyses leave NaN values in the user's
 ad_hoc_filter alone

---
 rdtools/analysis_chains.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rdtools/analysis_chains.py b/rdtools/analysis_chains.py
index eadd8c2..c347bf9 100644
--- a/rdtools/analysis_chains.py
+++ b/rdtools/analysis_chains.py
@@ -619,6 +619,7 @@ class TrendAnalysis:
                 warnings.warn(
                     "ad_hoc_filter contains NaN values; setting to False (excluding)"
                 )
+                ad_hoc_filter = ad_hoc_filter.copy()
                 ad_hoc_filter.loc[ad_hoc_filter.isnull()] = False
 
             if not filter_components.index.equals(ad_hoc_filter.index):
@@ -709,6 +710,7 @@ class TrendAnalysis:
                 warnings.warn(
                     "aggregated ad_hoc_filter contains NaN values; setting to False (excluding)"
                 )
+                ad_hoc_filter_aggregated = ad_hoc_filter_aggregated.copy()
                 ad_hoc_filter_aggregated.loc[ad_hoc_filter_aggregated.isnull()] = False
 
             if not filter_components_aggregated.index.equals(
-- 
2.43.0


From 13019b2592f12c7ad5781926f1caff0c391d6745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:32 +0000
Subject: [PATCH 15/41] fix: filter parameters are validated by every
 dictionary operation

---
 rdtools/analysis_chains.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/rdtools/analysis_chains.py b/rdtools/analysis_chains.py
index c347bf9..3ed869f 100644
--- a/rdtools/analysis_chains.py
+++ b/rdtools/analysis_chains.py
@@ -1285,10 +1285,20 @@ class ValidatedFilterDict(dict):
         super(ValidatedFilterDict, self).__setitem__(key, value)
 
     def update(self, *args, **kwargs):
-        for key in dict(*args, **kwargs).keys():
+        new = dict(*args, **kwargs)
+        for key in new.keys():
             if key not in self.valid_keys:
                 raise KeyError(self._err_msg.format(key))
-        super(ValidatedFilterDict, self).update(*args, **kwargs)
+        super(ValidatedFilterDict, self).update(new)
+
+    def setdefault(self, key, default=None):
+        if key not in self.valid_keys:
+            raise KeyError(self._err_msg.format(key))
+        return super(ValidatedFilterDict, self).setdefault(key, default)
+
+    def __ior__(self, other):
+        self.update(other)
+        return self
 
     def _validate_keys(self):
         for key in self.keys():
-- 
2.43.0


From 6c5fb1c183f50ef5866321a45a8856d0f3d6f836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:02 +0000
Subject: [PATCH 16/41] fix: SRR counts days since cleaning in calendar days
 across daylight saving changes

---
 rdtools/soiling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rdtools/soiling.py b/rdtools/soiling.py
index 92a3bfb..de7e3f4 100644
--- a/rdtools/soiling.py
+++ b/rdtools/soiling.py
@@ -325,7 +325,7 @@ class SRRAnalysis():
         pm_frame_out['loss_perfect_clean'] = np.nan
         pm_frame_out['loss_inferred_clean'] = np.nan
         pm_frame_out['days_since_clean'] = \
-            (pm_frame_out.index - pm_frame_out.start).dt.days
+            (pm_frame_out.index - pm_frame_out.start).dt.round("D").dt.days
 
         # Calculate the daily derate
         pm_frame_out['loss_perfect_clean'] = \
@@ -490,7 +490,7 @@ class SRRAnalysis():
                              .set_index('date')
             df_rand['loss'] = np.nan
             df_rand['days_since_clean'] = \
-                (df_rand.index - df_rand.start).dt.days
+                (df_rand.index - df_rand.start).dt.round("D").dt.days
             df_rand['loss'] = df_rand.start_loss + \
                 df_rand.days_since_clean * df_rand.run_slope
 
-- 
2.43.0


From 1e15815de640f2c0e68d6860550db14be2e11bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:02 +0000
Subject: [PATCH 17/41] fix: SRR assigns the random level of an invalid
 interval to that interval

---
 rdtools/soiling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/soiling.py b/rdtools/soiling.py
index de7e3f4..d5852b5 100644
--- a/rdtools/soiling.py
+++ b/rdtools/soiling.py
@@ -456,7 +456,7 @@ class SRRAnalysis():
                     invalid_intervals['previous_end'].fillna(1.0)
                 invalid_intervals['next_start'] = \
                     invalid_intervals['next_start'].fillna(1.0)
-                groups = set(invalid_intervals.group)
+                groups = sorted(set(invalid_intervals.group))
                 replace_levels = []
 
                 if len(groups) > 0:
-- 
2.43.0


From f8ab2fc4ab249b97435b036e71fd3ff6a7f414d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:56 +0000
Subject: [PATCH 18/41] fix: CODS bootstrap returns the soiling ratio of the
 best initial fit

---
 rdtools/soiling.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rdtools/soiling.py b/rdtools/soiling.py
index d5852b5..31b2524 100644
--- a/rdtools/soiling.py
+++ b/rdtools/soiling.py
@@ -1758,7 +1758,7 @@ class CODSAnalysis():
 
         # Save best model
         self.initial_fits = [df for df in list_of_df_out]
-        result_df = list_of_df_out[np.argmax(weights)]
+        result_df = list_of_df_out[np.argmax(weights)].copy()
 
         # If more than half of the model fits indicate small soiling signal,
         # don't do bootstrapping
@@ -1880,6 +1880,9 @@ class CODSAnalysis():
         concat_r_s = pd.concat([kdf.soiling_rates for kdf in bt_kdfs], axis=1)
         concat_ce = pd.concat([kdf.cleaning_events for kdf in bt_kdfs], axis=1)
 
+        # The returned soiling ratio and rates are those of the best initial fit
+        df_out = result_df
+
         # Find confidence intervals for SR and soiling rates
         df_out['SR_low'] = concat_SR.quantile(ci_low_edge, 1)
         df_out['SR_high'] = concat_SR.quantile(ci_high_edge, 1)
-- 
2.43.0


From dbc82f297d343866f2674bc375cbde83561c29c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:56 +0000
Subject: [PATCH 19/41] fix: CODS soiling loss is in percent when the soiling
 signal is small

---
 rdtools/soiling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/soiling.py b/rdtools/soiling.py
index 31b2524..56bbe66 100644
--- a/rdtools/soiling.py
+++ b/rdtools/soiling.py
@@ -1767,7 +1767,7 @@ class CODSAnalysis():
             self.residual_shift = results[np.argmax(weights)]['residual_shift']
             YOY = RdToolsDeg.degradation_year_on_year(pi)
             self.degradation = [YOY[0], YOY[1][0], YOY[1][1]]
-            self.soiling_loss = [0, 0, (1 - result_df.soiling_ratio).mean()]
+            self.soiling_loss = [0, 0, (1 - result_df.soiling_ratio).mean() * 100]
             self.small_soiling_signal = True
             self.errors = (
                 'Soiling signal is small relative to the noise. '
-- 
2.43.0


From 3f4677cfd2843e77903cf929b813938776950c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:56 +0000
Subject: [PATCH 20/41] fix: CODS reports soiling rates also with
 clip_soiling=False

---
 rdtools/soiling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rdtools/soiling.py b/rdtools/soiling.py
index 56bbe66..9380779 100644
--- a/rdtools/soiling.py
+++ b/rdtools/soiling.py
@@ -2160,8 +2160,8 @@ class CODSAnalysis():
             # 6: Force soiling ratio to not exceed 1:
             if clip_soiling:
                 dfk['soiling_ratio'] = dfk['soiling_ratio'].clip(upper=1)
-                dfk.soiling_rates = dfk.smooth_rates
-                dfk.loc[dfk.soiling_ratio.diff() == 0, 'soiling_rates'] = 0
+            dfk.soiling_rates = dfk.smooth_rates
+            dfk.loc[dfk.soiling_ratio.diff() == 0, 'soiling_rates'] = 0
 
         # Set number of days since cleaning event
         nr_days_dummy = pd.Series(index=dfk.index, data=np.nan)
-- 
2.43.0


From e9011abf75693bf399aaaa601efff9f74b97b758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:56 +0000
Subject: [PATCH 21/41] fix: CODS bootstrap works when some initial fits are
 not usable

---
 rdtools/soiling.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rdtools/soiling.py b/rdtools/soiling.py
index 9380779..00bebea 100644
--- a/rdtools/soiling.py
+++ b/rdtools/soiling.py
@@ -1750,7 +1750,7 @@ class CODSAnalysis():
                 print('\n', _parameters_n_weights)
 
         # Check if data is decomposable
-        if np.sum(adfs == 0) > nr_models / 2:
+        if nr_models - np.sum(adfs != 0) > nr_models / 2:
             raise RuntimeError(
                 'Test for stationary residuals (Augmented Dickey-Fuller'
                 + ' test) not passed in half  of the instances:\nData not'
@@ -1785,8 +1785,10 @@ class CODSAnalysis():
         # components, by perturbing amplitude and phase shift
         # Number of samples per fit:
         sample_nr = int(reps / nr_models)
-        list_of_SCs = [list_of_df_out[m].seasonal_component
-                       for m in range(nr_models) if weights[m] > 0]
+        # Only fits with stationary residuals contribute samples
+        reps = all_bootstrap_samples.shape[1]
+        list_of_SCs = [df.seasonal_component
+                       for df, adf in zip(list_of_df_out, adfs) if adf != 0]
         seasonal_samples = _make_seasonal_samples(list_of_SCs,
                                                   sample_nr=sample_nr,
                                                   min_multiplier=.8,
-- 
2.43.0


From 0fcad1bdb1ae04b8cf19ac39575273cbdc024998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:11 +0000
Subject: [PATCH 22/41] fix: CODS decomposition accepts orders in which the
 soiling ratio comes third

---
 rdtools/soiling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/soiling.py b/rdtools/soiling.py
index 00bebea..e1a67d0 100644
--- a/rdtools/soiling.py
+++ b/rdtools/soiling.py
@@ -1362,7 +1362,7 @@ class CODSAnalysis():
 
             # Find soiling component
             if order[(ic-1) % n_steps] == 'SR':
-                if ic > 2:  # Add possible cleaning events found by considering
+                if ic > 2 and soiling_dfs:  # Add possible cleaning events found by considering
                     # the residuals
                     pce = soiling_dfs[-1].cleaning_events.copy()
                     cleaning_sensitivity *= 1.2  # decrease sensitivity
-- 
2.43.0


From b55ae4c63b77125fce7df5123645d9fb51e7a5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:11 +0000
Subject: [PATCH 23/41] fix: CODS bootstrapped estimates ignore realizations
 that lack a day

---
 rdtools/soiling.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rdtools/soiling.py b/rdtools/soiling.py
index e1a67d0..272ba44 100644
--- a/rdtools/soiling.py
+++ b/rdtools/soiling.py
@@ -1894,11 +1894,14 @@ class CODSAnalysis():
         # Save best estimate and bootstrapped estimates of SR and soiling rates
         df_out.soiling_ratio = df_out.soiling_ratio.clip(lower=0, upper=1)
         df_out.loc[df_out.soiling_ratio.diff() == 0, 'soiling_rates'] = 0
-        df_out['bt_soiling_ratio'] = (concat_SR * weights).sum(1)
-        df_out['bt_soiling_rates'] = (concat_r_s * weights).sum(1)
+        # Fits that lack a day do not count in the weighted average of that day
+        daily_weights = concat_SR.notna().values * weights
+        daily_weights = daily_weights / daily_weights.sum(axis=1, keepdims=True)
+        df_out['bt_soiling_ratio'] = (concat_SR * daily_weights).sum(1)
+        df_out['bt_soiling_rates'] = (concat_r_s * daily_weights).sum(1)
 
         # Set probability of cleaning events
-        df_out.cleaning_events = (concat_ce * weights).sum(1)
+        df_out.cleaning_events = (concat_ce * daily_weights).sum(1)
 
         # Find degradation rates
         self.degradation = [np.dot(bt_deg, weights),
-- 
2.43.0


From 9a2ee74472fb4479b48c3351f5c40b55744a9fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:13 +0000
Subject: [PATCH 24/41] fix: availability low_threshold Series may list the
 subsystems in any order

---
 rdtools/availability.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rdtools/availability.py b/rdtools/availability.py
index 06d5778..e286669 100644
--- a/rdtools/availability.py
+++ b/rdtools/availability.py
@@ -248,6 +248,9 @@ class AvailabilityAnalysis:
             # power distribution so that low-power strangeness (snow cover,
             # outages, shading etc) don't affect the estimate:
             low_threshold = power_subsystem.quantile(0.99) / 1000
+        elif isinstance(low_threshold, pd.Series):
+            # the order of the subsystems does not matter
+            low_threshold = low_threshold[power_subsystem.columns]
 
         self.reporting_mask = looks_online = power_subsystem > low_threshold
         reporting = power_subsystem[looks_online]
-- 
2.43.0


From 3cb0fa51637b68a65c6fcd48574edcc671629700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:57 +0000
Subject: [PATCH 25/41] fix: availability spreads the loss of an outage over
 all its intervals

---
 rdtools/availability.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rdtools/availability.py b/rdtools/availability.py
index e286669..1a564be 100644
--- a/rdtools/availability.py
+++ b/rdtools/availability.py
@@ -501,12 +501,15 @@ class AvailabilityAnalysis:
         # scaling the expected power signal to match the actual
         lost_power_full = pd.Series(0, index=self.loss_subsystem.index, dtype=float)
         expected_power = self.power_expected
+        # calculated once for the entire series, since the first interval of a
+        # subset would be missing from the energy of that subset
+        expected_energy = rdtools.energy_from_power(expected_power)
         corrected_cumulative_energy = self.energy_cumulative.copy()
         for i, row in self.outage_info.iterrows():
             start = row['start']
             end = row['end']
             subset = expected_power.loc[start:end].copy()
-            subset_energy = rdtools.energy_from_power(subset)
+            subset_energy = expected_energy.loc[start:end]
             loss_fill = subset * row['loss'] / subset_energy.sum()
             lost_power_full.loc[subset.index] += loss_fill
 
-- 
2.43.0


From 242f311d9c896f2ec03ad22da66c68c891e83ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:57 +0000
Subject: [PATCH 26/41] fix: availability does not take the meter's last
 reading as the start of an outage at the start of the data

---
 rdtools/availability.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rdtools/availability.py b/rdtools/availability.py
index 1a564be..de6513b 100644
--- a/rdtools/availability.py
+++ b/rdtools/availability.py
@@ -441,8 +441,9 @@ class AvailabilityAnalysis:
             outage_expected_energy = self.energy_expected_rescaled[start:end]
 
             # self.cumulative_energy[start] is the first value in the outage.
-            # so to get the starting energy, need to get previous value:
-            start_minus_one = all_times[all_times.get_loc(start)-1]
+            # so to get the starting energy, need to get previous value
+            # (unknown if the data start in the outage):
+            energy_start = self.energy_cumulative.shift(1)[start]
 
             data = {
                 'start': start,
@@ -453,7 +454,7 @@ class AvailabilityAnalysis:
                 'error_lower': self.interp_lower(daylight_intervals),
                 'error_upper': self.interp_upper(daylight_intervals),
                 'energy_expected': outage_expected_energy.sum(),
-                'energy_start': self.energy_cumulative[start_minus_one],
+                'energy_start': energy_start,
                 'energy_end': self.energy_cumulative[end],
             }
             outage_data.append(data)
-- 
2.43.0


From b46a3e548f1ddb01120fadb2bc072ca2dd2d8553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:57 +0000
Subject: [PATCH 27/41] fix: availability lists an outage that covers the whole
 record

---
 rdtools/availability.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/rdtools/availability.py b/rdtools/availability.py
index de6513b..bf5a725 100644
--- a/rdtools/availability.py
+++ b/rdtools/availability.py
@@ -422,17 +422,10 @@ class AvailabilityAnalysis:
         bfill.loc[bfill.isnull()] = False
         full_outage = ffill | bfill
         # Find expected production and associated uncertainty for each outage
-        diff = full_outage.astype(int).diff()
-        starts = all_times[diff == 1].tolist()
-        ends = all_times[diff.shift(-1) == -1].tolist()
-        steps = diff[~diff.isnull() & (diff != 0)]
-        if not steps.empty:
-            if steps.iloc[0] == -1:
-                # data starts in an outage
-                starts.insert(0, all_times[0])
-            if steps.iloc[-1] == 1:
-                # data ends in an outage
-                ends.append(all_times[-1])
+        # (the data may start or end in an outage)
+        outage = full_outage.to_numpy(dtype=int)
+        starts = all_times[np.diff(outage, prepend=0) == 1].tolist()
+        ends = all_times[np.diff(outage, append=0) == -1].tolist()
 
         outage_data = []
         for start, end in zip(starts, ends):
-- 
2.43.0


From 07393af571c04e95231cddc4a21084f70ec4f620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:57 +0000
Subject: [PATCH 28/41] fix: availability counts the production between roll-up
 periods

---
 rdtools/availability.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rdtools/availability.py b/rdtools/availability.py
index bf5a725..4125fb5 100644
--- a/rdtools/availability.py
+++ b/rdtools/availability.py
@@ -550,9 +550,12 @@ class AvailabilityAnalysis:
         # calculate actual production based on corrected cumulative meter
         cumulative_energy = self.energy_cumulative_corrected
         resampled_cumulative = cumulative_energy.resample(rollup_period)
-        actual_production = (
-            resampled_cumulative.last() - resampled_cumulative.first()
-        )
+        # include the energy between the last reading of the previous period and
+        # the first reading of this one, so that no production is left out
+        period_end = resampled_cumulative.last()
+        period_start = period_end.ffill().shift(1)
+        period_start = period_start.fillna(resampled_cumulative.first())
+        actual_production = period_end - period_start
 
         lost_production = rdtools.energy_from_power(self.loss_total)
         df = pd.DataFrame({
-- 
2.43.0


From 84be22a801382856d6bc09575751c060d7cb0307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:05 +0000
Subject: [PATCH 29/41] fix: get_clearsky_tamb works in zones where midnight
 occurs twice

---
 rdtools/clearsky_temperature.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rdtools/clearsky_temperature.py b/rdtools/clearsky_temperature.py
index ebe617f..78f243a 100644
--- a/rdtools/clearsky_temperature.py
+++ b/rdtools/clearsky_temperature.py
@@ -62,7 +62,8 @@ def get_clearsky_tamb(times, latitude, longitude, window_size=40,
 
     dt_daily = pd.date_range(times.date[0] - buffer, times.date[-1] + buffer,
                              freq='D')
-    dt_daily = dt_daily.tz_localize(times.tz, ambiguous='infer',
+    # midnight may occur twice: use the first one
+    dt_daily = dt_daily.tz_localize(times.tz, ambiguous=np.ones(len(dt_daily), dtype=bool),
                                     nonexistent='shift_forward')
 
     f = h5py.File(filepath, "r")
-- 
2.43.0


From 20379340a31e9b194c2d288a20be94ef9a1ed2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:05 +0000
Subject: [PATCH 30/41] fix: get_clearsky_tamb returns temperatures next to the
 antimeridian and at the South Pole

---
 rdtools/clearsky_temperature.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rdtools/clearsky_temperature.py b/rdtools/clearsky_temperature.py
index 78f243a..c69a2ae 100644
--- a/rdtools/clearsky_temperature.py
+++ b/rdtools/clearsky_temperature.py
@@ -79,6 +79,9 @@ def get_clearsky_tamb(times, latitude, longitude, window_size=40,
         lon_temp += 360
     lon_index = round(float(lons) * float(lon_temp) / 360.0)
     lat_index = round(float(lats) * (90.0 - float(latitude)) / 180.0)
+    # the map wraps around at the antimeridian and ends at the poles
+    lon_index = lon_index % lons
+    lat_index = min(lat_index, lats - 1)
 
     df = pd.DataFrame(index=dt_daily)
     df['month'] = df.index.month
-- 
2.43.0


From b28b68c0f7629c94b254d11f6dd56ab27e135746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:06 +0000
Subject: [PATCH 31/41] fix: get_clearsky_tamb interpolates correctly at every
 sampling

---
 rdtools/clearsky_temperature.py | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/rdtools/clearsky_temperature.py b/rdtools/clearsky_temperature.py
index c69a2ae..ece2397 100644
--- a/rdtools/clearsky_temperature.py
+++ b/rdtools/clearsky_temperature.py
@@ -49,17 +49,6 @@ def get_clearsky_tamb(times, latitude, longitude, window_size=40,
 
     buffer = timedelta(days=window_size)
 
-    if times.freq is None:
-        freq_actual = pd.infer_freq(times)
-        if freq_actual is None:
-            times._engine.clear_mapping()
-            # workaround from https://github.com/pandas-dev/pandas/issues/55794
-            freq_actual = pd.infer_freq(times[:10])
-            warnings.warn("Input 'times' has no frequency attribute. "
-                          "Inferring frequency from first 10 timestamps.")
-    else:
-        freq_actual = times.freq
-
     dt_daily = pd.date_range(times.date[0] - buffer, times.date[-1] + buffer,
                              freq='D')
     # midnight may occur twice: use the first one
@@ -105,10 +94,12 @@ def get_clearsky_tamb(times, latitude, longitude, window_size=40,
     df = df.rolling(window=window_size, win_type='gaussian', min_periods=1,
                     center=True).mean(std=gauss_std)
 
-    df = df.resample(freq_actual).interpolate(method='linear')
+    # interpolate at the requested times themselves, because local midnights
+    # need not coincide with multiples of the sampling interval
+    df = df.reindex(df.index.union(times.unique())).interpolate(method='time')
     df['month'] = df.index.month
 
-    df = df.reindex(times, method='nearest')
+    df = df.reindex(times)
 
     utc_offsets = [y.utcoffset().total_seconds() / 3600.0 for y in df.index]
 
-- 
2.43.0


From d858f6821834e019260e1d8e12ab86a8027ab27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:46 +0000
Subject: [PATCH 32/41] fix: degradation_summary_plots works with fewer than 40
 slopes

---
 rdtools/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rdtools/plotting.py b/rdtools/plotting.py
index 93a07ba..2ce1d09 100644
--- a/rdtools/plotting.py
+++ b/rdtools/plotting.py
@@ -39,7 +39,7 @@ def degradation_summary_plots(yoy_rd, yoy_ci, yoy_info, normalized_yield,
         upper limit of x-axis for the histogram
     bins : int, optional
         Number of bins in the histogram distribution. If omitted,
-        ``len(yoy_values) // 40`` will be used
+        ``len(yoy_values) // 40`` (at least 1) will be used
     scatter_ymin : float, optional
         lower limit of y-axis for the scatter plot
     scatter_ymax : float, optional
@@ -72,7 +72,7 @@ def degradation_summary_plots(yoy_rd, yoy_ci, yoy_info, normalized_yield,
     yoy_values = yoy_info['YoY_values']
 
     if bins is None:
-        bins = len(yoy_values) // 40
+        bins = max(len(yoy_values) // 40, 1)
 
     bins = int(min(bins, len(yoy_values)))
 
-- 
2.43.0


From 53742321f4e301428d6528890eee4fcdc647eedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:46 +0000
Subject: [PATCH 33/41] fix: degradation_timeseries_plot labels the figure it
 draws on

---
 rdtools/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/plotting.py b/rdtools/plotting.py
index 2ce1d09..2603741 100644
--- a/rdtools/plotting.py
+++ b/rdtools/plotting.py
@@ -498,7 +498,7 @@ def degradation_timeseries_plot(yoy_info, rolling_days=365, include_ci=True,
         ax.fill_between(ci_lower.index, ci_lower, ci_upper, color=ci_color)
     ax.plot(roller.median(), color=plot_color, **kwargs)
     ax.axhline(results_values.median(), c='k', ls='--')
-    plt.ylabel('Degradation trend (%/yr)')
+    ax.set_ylabel('Degradation trend (%/yr)')
     fig.autofmt_xdate()
 
     return fig
-- 
2.43.0


From 57d9a7f957fe2c8984f317e74f22fa381e7c61b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:46 +0000
Subject: [PATCH 34/41] fix: tune_filter_plot accepts a signal or index named
 mask

---
 rdtools/plotting.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rdtools/plotting.py b/rdtools/plotting.py
index 2603741..c958876 100644
--- a/rdtools/plotting.py
+++ b/rdtools/plotting.py
@@ -323,9 +323,12 @@ def tune_filter_plot(signal, mask, display_web_browser=False):
     # using the clipping_mask series. Use plotly to visualize.
     df = pd.DataFrame(signal)
     # Add the mask as a column
-    df['mask'] = mask
+    mask_name = 'mask'
+    while mask_name in (column_name, index_name):
+        mask_name += '_'
+    df[mask_name] = mask
     df = df.reset_index()
-    fig = px.scatter(df, x=index_name, y=column_name, color='mask',
+    fig = px.scatter(df, x=index_name, y=column_name, color=mask_name,
                      color_discrete_map={
                          True: "blue",
                          False: "goldenrod"},
-- 
2.43.0


From 0fd9dc7ba610f4f59d7488cabd4ddf7b9067195a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:46 +0000
Subject: [PATCH 35/41] fix: degradation_year_on_year returns YoY_values with
 circular_block uncertainty

---
 rdtools/degradation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rdtools/degradation.py b/rdtools/degradation.py
index 18d6ae3..4d9f27d 100644
--- a/rdtools/degradation.py
+++ b/rdtools/degradation.py
@@ -345,6 +345,7 @@ def degradation_year_on_year(energy_normalized, recenter=True,
 
         # Save calculation information
         calc_info = {
+            'YoY_values': yoy_result,
             'renormalizing_factor': renorm,
             'exceedance_level': exceedance_level,
             'usage_of_points': df['usage_of_points'],
-- 
2.43.0


From ecaf60713504906a77a3d351990586f031061580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:19 +0000
Subject: [PATCH 36/41] fix: irradiance_rescale fits the factor also when the
 initial guess is 1

---
 rdtools/normalization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rdtools/normalization.py b/rdtools/normalization.py
index e0274c7..959ba0c 100644
--- a/rdtools/normalization.py
+++ b/rdtools/normalization.py
@@ -269,7 +269,8 @@ def irradiance_rescale(irrad, irrad_sim, max_iterations=100,
         # Calculate an initial guess for the rescale factor
         factor = (np.percentile(irrad.dropna(), 90) /
                   np.percentile(irrad_sim.dropna(), 90))
-        prev_factor = 1.0
+        # the guess itself is taken as converged only when no attempt is allowed
+        prev_factor = 1.0 if max_iterations == 0 else np.inf
 
         # Iteratively run the optimization,
         # recalculating the clear sky filter each time
-- 
2.43.0


From 94f72064c5b09776bcb9cc5f944ec2545436e52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:20 +0000
Subject: [PATCH 37/41] fix: CODS run_bootstrap tests every combination of the
 given alternatives

The alternatives may have any length of at least one; a single value raised
an IndexError and a third one was never tested.
---
 rdtools/soiling.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/rdtools/soiling.py b/rdtools/soiling.py
index 272ba44..c7b59dc 100644
--- a/rdtools/soiling.py
+++ b/rdtools/soiling.py
@@ -1680,11 +1680,8 @@ class CODSAnalysis():
                                   cleaning_sensitivity_alternatives,
                                   clean_pruning_sensitivity_alternatives,
                                   forward_fill_alternatives]
-        index_list = list(itertools.product([0, 1], repeat=len(parameter_alternatives)))
-        combination_of_parameters = [[parameter_alternatives[j][indexes[j]]
-                                     for j in range(len(parameter_alternatives))]
-                                     for indexes in index_list]
-        nr_models = len(index_list)
+        combination_of_parameters = list(itertools.product(*parameter_alternatives))
+        nr_models = len(combination_of_parameters)
         bootstrap_samples_list, list_of_df_out, results = [], [], []
 
         # Check boostrap number
-- 
2.43.0


From bed380efefcd530d35bb2776ff55bd2cb1d64ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:46 +0000
Subject: [PATCH 38/41] fix: energy_from_power and interpolate gave wrong
 results (or ran out of memory) for an index that is not in nanoseconds

---
 rdtools/normalization.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/rdtools/normalization.py b/rdtools/normalization.py
index 959ba0c..bfe7edc 100644
--- a/rdtools/normalization.py
+++ b/rdtools/normalization.py
@@ -175,6 +175,16 @@ def normalize_with_pvwatts(energy, pvwatts_kws):
     return energy_normalized, insolation
 
 
+def _nanosecond_index(index):
+    '''
+    Return the DatetimeIndex with nanosecond resolution, which the integer
+    arithmetic in this module relies on
+    '''
+    if getattr(index, 'unit', 'ns') != 'ns':
+        index = index.as_unit('ns')
+    return index
+
+
 def _delta_index(series):
     '''
     Takes a pandas series with a DatetimeIndex as input and
@@ -193,6 +203,8 @@ def _delta_index(series):
         The average timestep
     '''
 
+    series = series.set_axis(_nanosecond_index(series.index))
+
     if series.index.freq is None:
         # If there is no frequency information, explicitly calculate interval
         # sizes. Length of each interval calculated by using 'int64' to convert
@@ -386,6 +398,7 @@ def energy_from_power(power, target_frequency=None, max_timedelta=None,
     if not isinstance(power.index, pd.DatetimeIndex):
         raise ValueError('power must be a pandas series with a '
                          'DatetimeIndex')
+    power = power.set_axis(_nanosecond_index(power.index))
 
     if len(power) <= 1:
         # just one value, doesn't make sense to interpolate or trapz aggregate.
@@ -576,7 +589,7 @@ def _interpolate_series(time_series, target_index, max_timedelta=None,
     df = df.dropna()
 
     # convert to integer index and calculate the size of gaps in input
-    timestamps = df.index.view("int64").copy()
+    timestamps = _nanosecond_index(df.index).view("int64").copy()
     df["timestamp"] = timestamps
     df["gapsize_ns"] = df["timestamp"].diff()
     df.index = timestamps
@@ -596,7 +609,7 @@ def _interpolate_series(time_series, target_index, max_timedelta=None,
                       UserWarning)
 
     # put data on index that includes both original and target indicies
-    target_timestamps = pd.Index(target_index.view('int64'))
+    target_timestamps = pd.Index(_nanosecond_index(target_index).view('int64'))
     union_index = df.index.append(target_timestamps)
     union_index = union_index.drop_duplicates(keep='first')
     df = df.reindex(union_index)
-- 
2.43.0


From 2b714265addbf5621c2e476d229699360762b110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:17 +0000
Subject: [PATCH 39/41] fix: two_way_window_filter and directional_tukey_filter
 aligned masks wrongly for a regular index that is not in nanoseconds

---
 rdtools/filtering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rdtools/filtering.py b/rdtools/filtering.py
index 276b6b7..37cbc16 100644
--- a/rdtools/filtering.py
+++ b/rdtools/filtering.py
@@ -954,7 +954,7 @@ def two_way_window_filter(
     backward_median = series.rolling(roll_period, min_periods=5, closed="both").median()
     forward_median = (
         series.loc[::-1].rolling(roll_period, min_periods=5, closed="both").median()
-    )
+    ).iloc[::-1]
 
     backward_dif = abs(series - backward_median)
     forward_dif = abs(series - forward_median)
@@ -1063,7 +1063,7 @@ def directional_tukey_filter(series, roll_period=pd.to_timedelta("7 Days"), k=1.
     backward_median = series.rolling(roll_period, min_periods=5, closed="both").median()
     forward_median = (
         series.loc[::-1].rolling(roll_period, min_periods=5, closed="both").median()
-    )
+    ).iloc[::-1]
     backward_dif = series - backward_median
     forward_dif = series - forward_median
 
-- 
2.43.0


From 02586373c92fd44821dbee8520f3a24237bc4783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:08 +0000
Subject: [PATCH 40/41] fix: pvlib_clearsky_filter documented defaults it does
 not use

---
 rdtools/filtering.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rdtools/filtering.py b/rdtools/filtering.py
index 37cbc16..fb2a432 100644
--- a/rdtools/filtering.py
+++ b/rdtools/filtering.py
@@ -197,17 +197,17 @@ def pvlib_clearsky_filter(
     max_diff : float, default 75
         Threshold value for agreement between maxima of measured and
         clearsky values in each interval, see Eq. 7 in [1]. [W/m2]
-    lower_line_length : float, default -5
+    lower_line_length : float, default -45
         Lower limit of line length criterion from Eq. 8 in [1].
         Criterion satisfied when lower_line_length < line length difference
         < upper_line_length.
-    upper_line_length : float, default 10
+    upper_line_length : float, default 80
         Upper limit of line length criterion from Eq. 8 in [1].
-    var_diff : float, default 0.005
+    var_diff : float, default 0.032
         Threshold value in Hz for the agreement between normalized
         standard deviations of rate of change in irradiance, see Eqs. 9
         through 11 in [1].
-    slope_dev : float, default 8
+    slope_dev : float, default 75
         Threshold value for agreement between the largest magnitude of
         change in successive values, see Eqs. 12 through 14 in [1].
     lookup_parameters : bool, default False
-- 
2.43.0


From 0df0b3ea0603a4398c8d0236a2397d050e8fcea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:48 +0000
Subject: [PATCH 41/41] fix: logic_clip_filter raised for an index named
 'value'

---
 rdtools/filtering.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/rdtools/filtering.py b/rdtools/filtering.py
index fb2a432..69b7991 100644
--- a/rdtools/filtering.py
+++ b/rdtools/filtering.py
@@ -589,11 +589,7 @@ def logic_clip_filter(
     original_time_series_sampling_frequency = time_series_sampling_frequency
     power_ac_copy = power_ac.copy()
     # Drop duplicate indices
-    power_ac = (
-        power_ac.reset_index()
-        .drop_duplicates(subset=power_ac.index.name, keep="first")
-        .set_index(power_ac.index.name)
-    )
+    power_ac = power_ac[~power_ac.index.duplicated(keep="first")].to_frame()
     freq_string = str(time_series_sampling_frequency) + "min"
     # Set days with the majority of frozen data to null.
     daily_std = power_ac.resample("D").std() / power_ac.resample("D").mean()
-- 
2.43.0

