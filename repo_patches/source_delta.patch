From b36cd6684289a79c6c70431db7e542b4b2eefb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:24 +0000
Subject: [PATCH 01/27] fix: numeric extrapolation axis counted x_start_actuals
 twice

---
 anticipy/model_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anticipy/model_utils.py b/anticipy/model_utils.py
index a87c88f..be91cb5 100644
--- a/anticipy/model_utils.py
+++ b/anticipy/model_utils.py
@@ -215,7 +215,7 @@ def get_s_x_extrapolate(
             index=index,
             data=np.arange(
                 x_start_actuals,
-                x_start_actuals + index.size)) + x_start_actuals
+                x_start_actuals + index.size))
     if model_requires_scaling(model):
         s_x = s_x / scaling_factor
     return s_x
-- 
2.43.0


From 5456060a7c29f87887d43c3dd5812e29a701a786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:24 +0000
Subject: [PATCH 02/27] fix: extrapolation crashed with quarterly samples and
 with fractions of months or years

---
 anticipy/model_utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/anticipy/model_utils.py b/anticipy/model_utils.py
index be91cb5..6d68621 100644
--- a/anticipy/model_utils.py
+++ b/anticipy/model_utils.py
@@ -108,6 +108,7 @@ dict_freq_units_per_year = dict(
 dict_dateoffset_input = dict(
     Y='years',
     A='years',
+    Q='months',
     M='months',
     W='weeks',
     D='days',
@@ -187,6 +188,11 @@ def get_s_x_extrapolate(
         # Todo: change to dict to support more frequencies
         freq_units_per_year = dict_freq_units_per_year.get(freq_short, 365.0)
         extrapolate_units = extrapolate_years * freq_units_per_year
+        if freq_short in ('Y', 'A', 'Q', 'M'):
+            # Calendar offsets need a whole number of units
+            extrapolate_units = int(extrapolate_units)
+        if freq_short == 'Q':
+            extrapolate_units = 3 * extrapolate_units  # In months
         offset_input = {dict_dateoffset_input.get(freq_short):
                             extrapolate_units}
         date_end_forecast = date_end_actuals + \
-- 
2.43.0


From c1d35498023e1a7e220ced98e742e937ffde86a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:24 +0000
Subject: [PATCH 03/27] fix: AICc of a near-perfect fit crashed when fit_error
 / n underflows

---
 anticipy/model_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/anticipy/model_utils.py b/anticipy/model_utils.py
index 6d68621..d725f48 100644
--- a/anticipy/model_utils.py
+++ b/anticipy/model_utils.py
@@ -279,12 +279,13 @@ def get_aic_c(fit_error, n, n_params):
             # multiple perfect fits - we use a patch instead
             # aicc = -float("inf")
             fit_error = 10 ** -320
-            aicc = n * math.log(fit_error / n) + 2 * n_params + \
+            aicc = n * (math.log(fit_error) - math.log(n)) + 2 * n_params + \
                 (2 * n_params * (n_params + 1) / (n - n_params - 1))
 
     else:
         # Actual calculation of the AICc
-        aicc = n * math.log(fit_error / n) + 2 * n_params + \
+        # fit_error / n could underflow to 0
+        aicc = n * (math.log(fit_error) - math.log(n)) + 2 * n_params + \
             (2 * n_params * (n_params + 1) / (n - n_params - 1))
 
     return aicc
-- 
2.43.0


From 9f6ead0d449326b8b2ccb8302154befa84c1f2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:24 +0000
Subject: [PATCH 04/27] fix: best AICc key failed with several -inf values, and
 was a position rather than a key

---
 anticipy/model_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/anticipy/model_utils.py b/anticipy/model_utils.py
index d725f48..2e67238 100644
--- a/anticipy/model_utils.py
+++ b/anticipy/model_utils.py
@@ -297,10 +297,10 @@ def get_s_aic_c_best_result_key(s_aic_c):
     if s_aic_c.empty or s_aic_c.isnull().all():
         return None
     if (s_aic_c.values == -np.inf).any():
-        (key_best_result,) = (s_aic_c == -np.inf).to_numpy().nonzero()[0]
-        key_best_result = s_aic_c.index[key_best_result.min()]
+        i_best_result = (s_aic_c == -np.inf).to_numpy().nonzero()[0]
+        key_best_result = s_aic_c.index[i_best_result.min()]
     else:
-        key_best_result = s_aic_c.argmin()
+        key_best_result = s_aic_c.idxmin()
     return key_best_result
 
 
-- 
2.43.0


From 685afa205cee74514a99060040f60d41895be204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:24 +0000
Subject: [PATCH 05/27] fix: prediction intervals crashed when sampling
 frequency is unknown

---
 anticipy/forecast.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index 0a4143a..37e61db 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -1563,6 +1563,8 @@ class ForecastInput:
 
 
 def _get_days_from_freq(freq):
+    if freq is None:  # Frequency could not be detected
+        return 1
     if freq.startswith('Y'):
         return 365
     elif freq.startswith('M'):
-- 
2.43.0


From 8abe204fc176085c557fe1542fa9b52c6a529407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:24 +0000
Subject: [PATCH 06/27] fix: fitting an empty series with no dates crashed,
 rather than report EMPTY_TS

---
 anticipy/forecast.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index 37e61db..118558a 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -494,9 +494,9 @@ def fit_model(model, df_y, freq='W', source='test', df_actuals=None,
     # Get first and last actuals date, for metadata. If no a_date, use a_x
     # instead.
     date_start_actuals = i_date.min().date()\
-        if i_date is not None else a_x.min()
+        if i_date is not None else df_y[col_name_x].min()
     date_end_actuals = i_date.max().date()\
-        if i_date is not None else a_x.max()
+        if i_date is not None else df_y[col_name_x].max()
     actuals_x_range = '{}::{}'.format(date_start_actuals, date_end_actuals)
 
     if df_y.empty:
-- 
2.43.0


From 680659d33164175ef16e4c6f594f7433b3428954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:54 +0000
Subject: [PATCH 07/27] fix: outlier detection crashed on series without
 outliers

---
 anticipy/forecast_models.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index a15ac6f..79a7a6a 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -1390,6 +1390,9 @@ def get_model_outliers(df, window=3):
     dfo['is_spike'] = (dfo.mean_group_diff_abs -
                        dfo.mean_group_diff.abs()) > (thr_hi - thr_low) / 2
 
+    if not dfo.ischange.any():  # No outliers - nothing to do
+        return np.full(dfo.index.size, False), np.full(dfo.index.size, False)
+
     # Get the outlier start and end points for each group
     df_outl = (
         dfo.loc[dfo.ischange.astype(bool)].groupby('change_group').apply(
@@ -1398,9 +1401,6 @@ def get_model_outliers(df, window=3):
                  'outl_end': x[x_col].iloc[-1]})).reset_index()
     )
 
-    if df_outl.empty:  # No outliers - nothing to do
-        return np.full(dfo.index.size, False), np.full(dfo.index.size, False)
-
     dfo = dfo.merge(df_outl, how='left')
     # Get the start and end points in dfo
     if with_dates:
-- 
2.43.0


From 4c14b2e55801223f0cec012a5eda57f6eaa41381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:54 +0000
Subject: [PATCH 08/27] fix: models with equal min and max bounds could not be
 fitted, or were extrapolated with the wrong parameters

---
 anticipy/forecast.py        | 2 ++
 anticipy/forecast_models.py | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index 118558a..45d63d6 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -1361,6 +1361,8 @@ def run_forecast_single(df_y,
         l_df_optimize_info += [df_optimize_info]
         source_long = df_metadata_tmp.source_long.iloc[0]
         params = df_metadata_tmp.params.iloc[0]
+        # Model may have been simplified when fitting
+        model = df_metadata_tmp.model_obj.iloc[0]
 
         if df_metadata_tmp.is_fit.iloc[0]:  # If model is fit
 
diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index 79a7a6a..6b2b172 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -1899,7 +1899,7 @@ def simplify_model(f_model, a_x=None, a_y=None, a_date=None):
         return f_model
     else:  # We make parameters fixed if their min and max bounds are equal
         params_fixed = np.full(f_model.n_params, np.NaN)
-        params_fixed[i_diff_zero, ] = bounds_max[i_diff_zero, ]
+        params_fixed[i_diff_zero] = np.array(bounds_max)[i_diff_zero]
         f_model = fix_params_fmodel(f_model, params_fixed)
         logger.info(
             'Some min and max bounds are equal - generating fixed model: %s',
-- 
2.43.0


From 2fbdaf35b07129a02ad02cb6036a127a35b7cf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:54 +0000
Subject: [PATCH 09/27] fix: initial parameters of sigmoid step model were
 outside of its bounds

---
 anticipy/forecast_models.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index 6b2b172..e2fae65 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -1024,6 +1024,11 @@ def _f_init_params_sigmoid_step(
         c = df.nlargest(1, 'diff').index[0]
         b = df.loc[c, 'y']
         d = b * b
+        # Initial values need to be within the bounds of the model
+        b_max = 2 * (df.y.max() - df.y.min())
+        b = min(max(b, -b_max), b_max)
+        if a_x is not None:
+            c = a_x[c] if a_x.ndim == 1 else a_x[c, 0]
         return b, c, d
 
 
-- 
2.43.0


From 908bbe1b0daceeb4ae7c2031834ee6fa61d4c5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:54 +0000
Subject: [PATCH 10/27] fix: initial parameters of ramp model were outside of
 its bounds with multiple samples per x

---
 anticipy/forecast_models.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index e2fae65..2dccaab 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -1115,12 +1115,19 @@ def _f_init_params_ramp(a_x=None, a_y=None, a_date=None, is_mult=False):
         return np.array([a, b])
 
 
+def _f_validate_input_ramp(a_x, a_y, a_date):
+    # Need 2 or more segments to find a change in slope
+    assert np.unique(a_x).size >= 4
+
+
 def _f_init_bounds_ramp(a_x=None, a_y=None, a_date=None):
     if a_x is None:
         a_min = -np.inf
         a_max = np.inf
     else:
         # a_min = np.min(a_x)
+        # Like in parameter initialization, ignore repeated x values
+        a_x = np.unique(a_x)
         nfirst_last = int(np.ceil(0.15 * a_x.size))
         a_min = a_x[nfirst_last]
         a_max = a_x[-nfirst_last]
@@ -1149,7 +1156,8 @@ model_ramp = ForecastModel(
     2,
     _f_ramp,
     _f_init_params_ramp,
-    _f_init_bounds_ramp)
+    _f_init_bounds_ramp,
+    l_f_validate_input=_f_validate_input_ramp)
 
 
 # - Weekday seasonality
-- 
2.43.0


From 537a56c93e4141d53cfa62754e2a38dfdd4ddc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:54 +0000
Subject: [PATCH 11/27] fix: initial parameters of linear model were not finite
 with a single x value

---
 anticipy/forecast_models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index 2dccaab..09cac28 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -762,9 +762,9 @@ def _f_init_params_linear(a_x=None, a_y=None, a_date=None, is_mult=False):
         return np.random.uniform(low=0, high=1, size=2)
     else:  # TODO: Improve this
         if a_x is not None:
-            a_x_size = np.unique(a_x).size - 1
+            a_x_size = max(np.unique(a_x).size - 1, 1)
         else:
-            a_x_size = a_y.size - 1
+            a_x_size = max(a_y.size - 1, 1)
         A = (a_y[-1] - a_y[0]) / a_x_size
         B = a_y[0]
         # Uniform low= 0*m, high = 1*m
-- 
2.43.0


From 5888113cd8bb137b0a933b3dde2c2eb991d5f758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:54 +0000
Subject: [PATCH 12/27] fix: spike model had 1 initial parameter instead of 3
 when no data is given

---
 anticipy/forecast_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index 09cac28..1b04bf9 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -686,7 +686,7 @@ def _f_init_params_spike(a_x=None, a_y=None, a_date=None, is_mult=False):
     """ params are spike height, x start, x end """
     # if not a_y.any():
     if a_y is None:
-        return [1] + np.random.uniform(0, 1, 1) + [2]
+        return np.concatenate([[1], np.random.uniform(0, 1, 1), [2]])
     else:
         diffs = np.diff(a_y)
         # if diffs:
-- 
2.43.0


From 7f2cc112a29f756aeddcd31c20f2af411177edb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:54 +0000
Subject: [PATCH 13/27] fix: series input was rejected unless the series was
 named after the value column

---
 anticipy/forecast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index 45d63d6..1a1786d 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -328,7 +328,7 @@ def normalize_df(df_y,
         return None
 
     if isinstance(df_y, pd.Series):
-        df_y = df_y.to_frame()
+        df_y = df_y.to_frame(col_name_y)
     assert isinstance(df_y, pd.DataFrame)
     assert col_name_y in df_y.columns, \
         'Dataframe needs to have a column named "{}"'.format(
-- 
2.43.0


From 46102d787cf5498fc8b1f82cde5c2b7f2bef5315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:54 +0000
Subject: [PATCH 14/27] fix: composed dummy models with the same name shared a
 cached mask

---
 anticipy/forecast_models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index 1b04bf9..19efa45 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -1624,8 +1624,9 @@ def get_model_dummy(name, dummy, **kwargs):
 
 
     """
-    mask_name = 'mask_' + name
     f_dummy = _get_f_dummy(dummy)
+    # Masks of composed models share a cache - names may not be unique
+    mask_name = 'mask_{}_{}'.format(name, id(f_dummy))
     _validate_f_dummy(f_dummy)
     f_model_dummy = _get_f_model_dummy(f_dummy, mask_name)
     dict_f_cache = {mask_name: f_dummy}
-- 
2.43.0


From ea0a8c950da18afa7f31349f7562ea51dab606ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:05 +0000
Subject: [PATCH 15/27] fix: season_month initial guess is finite when some
 months have no samples

---
 anticipy/forecast_models.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index 19efa45..de7df97 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -1198,8 +1198,10 @@ def _f_init_params_season_month(
     if a_y is None or a_date is None:
         return np.random.uniform(low=-1, high=1, size=11)
     else:  # TODO: Improve this
-        l_params_long = [np.mean(a_y[a_date.month == i])
-                         for i in np.arange(1, 13)]
+        # Months without samples start from the mean of the whole series
+        l_a_y_month = [a_y[a_date.month == i] for i in np.arange(1, 13)]
+        l_params_long = [np.mean(a_y_month if a_y_month.size else a_y)
+                         for a_y_month in l_a_y_month]
         l_baseline = l_params_long[-1]
         l_params = l_params_long[:-1]
         if not is_mult:
-- 
2.43.0


From a517ed870184d002ce047750a7f1fa0510cb68ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:04 +0000
Subject: [PATCH 16/27] fix: best AIC_C key is never a null score when all
 others are infinite

---
 anticipy/model_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anticipy/model_utils.py b/anticipy/model_utils.py
index 2e67238..a4e83ff 100644
--- a/anticipy/model_utils.py
+++ b/anticipy/model_utils.py
@@ -300,7 +300,7 @@ def get_s_aic_c_best_result_key(s_aic_c):
         i_best_result = (s_aic_c == -np.inf).to_numpy().nonzero()[0]
         key_best_result = s_aic_c.index[i_best_result.min()]
     else:
-        key_best_result = s_aic_c.idxmin()
+        key_best_result = s_aic_c.dropna().idxmin()
     return key_best_result
 
 
-- 
2.43.0


From f77edad06bdc05ec830101c104204c80aa91b28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:16 +0000
Subject: [PATCH 17/27] fix: outlier limits are not truncated for fractional x

---
 anticipy/forecast_models.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index de7df97..e9448db 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -1430,10 +1430,7 @@ def get_model_outliers(df, window=3):
                             (dfo.date >= pd.to_datetime(dfo.outl_start)) &
                             (dfo.date <= pd.to_datetime(dfo.outl_end)))
     else:
-        # For non-date x values, we fill na's and convert to int
-        dfo['outl_start'] = dfo.outl_start.fillna(0).astype(int)
-        dfo['outl_end'] = dfo.outl_end.fillna(0).astype(int)
-        # Create the mask for spikes and steps
+        # Create the mask for spikes and steps - false where limits are null
         dfo['mask_spike'] = (dfo['is_spike'] &
                              (dfo.x >= dfo.outl_start) &
                              (dfo.x < dfo.outl_end))
-- 
2.43.0


From d31a71b5cd5b4878394981ccea10f113dac0db97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:00 +0000
Subject: [PATCH 18/27] fix: gap filling keeps samples that are off the grid of
 the detected frequency

---
 anticipy/model_utils.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/anticipy/model_utils.py b/anticipy/model_utils.py
index a4e83ff..123a20b 100644
--- a/anticipy/model_utils.py
+++ b/anticipy/model_utils.py
@@ -384,6 +384,14 @@ def interpolate_df(df, include_mask=False, interpolate_y=True):
             #  e.g. 2-sample series with 8-day gap
             return df
 
+        # The grid of a frequency may be irregular, e.g. months: if it has a
+        #  sample at each point, there are no gaps.
+        # Samples off the grid, e.g. quarter starts, can't be aligned with it
+        i_date_grid = pd.date_range(df.date.min(), df.date.max(), freq=freq)
+        if i_date_grid.isin(df.date).all() or \
+                not df.date.isin(i_date_grid).all():
+            return df
+
         # At this point, we know there are irregular intervals
         # We need to check if there are duplicate samples
         # - if that is the case, we crash b.c. scenario not supported by asfreq
-- 
2.43.0


From 48b13f317be5f3664318d0b604fd94af3fec2073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:18 +0000
Subject: [PATCH 19/27] fix: numeric extrapolation axis missed the end of the
 actuals and of the forecast period

---
 anticipy/model_utils.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/anticipy/model_utils.py b/anticipy/model_utils.py
index 123a20b..a07d106 100644
--- a/anticipy/model_utils.py
+++ b/anticipy/model_utils.py
@@ -212,11 +212,10 @@ def get_s_x_extrapolate(
         # Otherwise, use numeric index
         # we extrapolate future samples equal to 100*extrapolate_years
         index = pd.Index(
-            np.arange(
-                date_start_actuals,
-                date_end_actuals +
-                100 *
-                extrapolate_years))
+            date_start_actuals + np.arange(
+                (date_end_actuals - date_start_actuals +
+                 100 *
+                 extrapolate_years) // 1 + 1))
         s_x = pd.Series(
             index=index,
             data=np.arange(
-- 
2.43.0


From 4f595d07f5a0e50af9d3301a5497d28b0a19c78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:30 +0000
Subject: [PATCH 20/27] fix: plotting reported success when the plotting
 library is missing

---
 anticipy/forecast_plot.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/anticipy/forecast_plot.py b/anticipy/forecast_plot.py
index a8df364..0c51bc4 100644
--- a/anticipy/forecast_plot.py
+++ b/anticipy/forecast_plot.py
@@ -447,6 +447,7 @@ def plot_forecast(df_fcast, output='html', path=None, width=None, height=None,
         else:
             logger.error('Please install matplotlib library to enable this '
                          'feature.')
+            return 1
     elif output == 'html':
         if _plotly_imported:
             fig = _plotly_forecast_create(df_fcast, subplots, sources, nrows,
@@ -460,6 +461,7 @@ def plot_forecast(df_fcast, output='html', path=None, width=None, height=None,
         else:
             logger.error('Please install plotly library to enable this '
                          'feature.')
+            return 1
     elif output == 'jupyter':
         if _plotly_imported and _ipython_imported:
             py.offline.init_notebook_mode(connected=True)
@@ -472,6 +474,7 @@ def plot_forecast(df_fcast, output='html', path=None, width=None, height=None,
         else:
             logger.error('Please make sure that both plotly and ipython '
                          'libraries are installed to enable this feature.')
+            return 1
     else:
         logger.error('Wrong exporting format provided. Either png, html or '
                      'jupyter formats are supported at the moment.')
-- 
2.43.0


From a605efbc53825a73d3b736fd629ed4a36a40e97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:48 +0000
Subject: [PATCH 21/27] fix: png plots crashed with default width and height

---
 anticipy/forecast_plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/anticipy/forecast_plot.py b/anticipy/forecast_plot.py
index 0c51bc4..2a0d625 100644
--- a/anticipy/forecast_plot.py
+++ b/anticipy/forecast_plot.py
@@ -93,7 +93,8 @@ def _matplotlib_forecast_create(df_fcast, subplots, sources, nrows, ncols,
     act_col = '#00BFC4'
     for_col = '#F8766D'
     plt.style.use('ggplot')
-    figsize = (width / dpi, height / dpi)
+    # Use default size if not specified
+    figsize = (width / dpi, height / dpi) if width and height else None
 
     # Clean actuals - weights do not get plotted
     df_fcast = df_fcast.loc[df_fcast.model != 'weight']
-- 
2.43.0


From 8cd4afabbfe0b9d77896ad0066271b00b3ad7d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:45 +0000
Subject: [PATCH 22/27] fix: extrapolation crashed with some fractional numeric
 x_start_actuals

---
 anticipy/model_utils.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/anticipy/model_utils.py b/anticipy/model_utils.py
index a07d106..b37543a 100644
--- a/anticipy/model_utils.py
+++ b/anticipy/model_utils.py
@@ -218,9 +218,7 @@ def get_s_x_extrapolate(
                  extrapolate_years) // 1 + 1))
         s_x = pd.Series(
             index=index,
-            data=np.arange(
-                x_start_actuals,
-                x_start_actuals + index.size))
+            data=x_start_actuals + np.arange(index.size))
     if model_requires_scaling(model):
         s_x = s_x / scaling_factor
     return s_x
-- 
2.43.0


From 42464fd51d219fec5fc3b6dafbed43f3cca722c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:07 +0000
Subject: [PATCH 23/27] fix: naive model crashed or ignored earlier samples
 when several dates share one x

---
 anticipy/forecast_models.py | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index e9448db..be0d80e 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -572,23 +572,18 @@ model_constant = ForecastModel(
 def _f_model_naive(a_x, a_date, params, is_mult=False, df_actuals=None):
     if df_actuals is None:
         raise ValueError('model_naive requires a df_actuals argument')
-    df_out_tmp = pd.DataFrame({'date': a_date, 'x': a_x})
-    df_out = (
-        # This is not really intended to work with multiple values per sample
-        df_actuals.drop_duplicates('x')
-        .merge(df_out_tmp, how='outer')
-        .sort_values('x')
-    )
-    df_out['y'] = (
-        df_out.y.shift(1)
+    # Samples are matched by date if available: x may be shared by several dates
+    col = 'date' if 'date' in df_actuals.columns else 'x'
+    # With multiple values per sample, use the first valid one
+    s_y = df_actuals.groupby(col).y.first()
+    i_out = pd.Index(a_date if col == 'date' else a_x).sort_values()
+    s_y = (
+        s_y.reindex(s_y.index.union(i_out.unique()))
+        .shift(1)
         .fillna(method='ffill')
         .fillna(method='bfill')
     )
-    df_out = df_out.loc[df_out.x.isin(a_x)]
-    # df_out = df_out_tmp.merge(df_out, how='left')
-    # TODO: CHECK THAT X,DATE order is preserved
-    # TODO: df_out = df_out.merge(df_out_tmp, how='right')
-    return df_out.y.values
+    return s_y.reindex(i_out).values
 
 
 model_naive = ForecastModel('naive', 0, _f_model_naive)
-- 
2.43.0


From 279a62e1a898d4421efa601da387aaa4b7558770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:26 +0000
Subject: [PATCH 24/27] fix: seasonal naive model crashed when dates of the
 actuals have an unexpected x

---
 anticipy/forecast_models.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index be0d80e..b5f51a4 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -608,7 +608,7 @@ def _fillna_wday(df):
         df
         .assign(wday=df.date.dt.weekday)
         .groupby('wday', as_index=False).apply(add_col_y_out)
-        .sort_values(['x'])
+        .sort_values(['date'])
         .reset_index(drop=True)
     )
     return df_out
@@ -621,7 +621,9 @@ def _f_model_snaive_wday(a_x, a_date, params, is_mult=False, df_actuals=None):
 
     # df_actuals_model - table with actuals samples,
     #  adding y_out column with naive model values
-    df_actuals_model = _fillna_wday(df_actuals.drop_duplicates('x'))
+    # Samples are matched by date: x may be shared by several dates
+    df_actuals_model = _fillna_wday(
+        df_actuals.groupby('date', as_index=False).first())
 
     # df_last_week - table with naive model values from last actuals week,
     #  to use in extrapolation
@@ -641,15 +643,15 @@ def _f_model_snaive_wday(a_x, a_date, params, is_mult=False, df_actuals=None):
         df_out_tmp
         .loc[~df_out_tmp.date.isin(df_actuals_model.date)]
         .merge(df_last_week, how='left')
-        .sort_values('x')
+        .sort_values('date')
     )
     # Filter actuals table - only samples in a_x, a_date
     df_out_actuals_filtered = (
         # df_actuals_model.loc[df_actuals_model.x.isin(a_x)]
         # Using merge rather than simple filtering to account for
         #  dates with multiple samples
-        df_actuals_model.merge(df_out_tmp, how='inner')
-        .sort_values('x')
+        df_actuals_model.merge(df_out_tmp[['date']], how='inner')
+        .sort_values('date')
     )
     df_out = (
         pd.concat(
-- 
2.43.0


From 4e49ade923481f7dbfe6ce1fbfdc36b09b1a1173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:46 +0000
Subject: [PATCH 25/27] fix: ignored samples sharing x with other samples
 influenced naive models

---
 anticipy/forecast.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index 1a1786d..47e4056 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -1188,7 +1188,7 @@ def run_forecast_single(df_y,
     else:
         freq = None
 
-    df_y = df_y.copy()
+    df_y = df_y.reset_index(drop=True)
     df_y_unfiltered = df_y.copy()
 
     # Filter: only actuals after date_start_actuals
@@ -1323,12 +1323,11 @@ def run_forecast_single(df_y,
     #  used for extrapolation, naive model fitting
     df_actuals_interpolated = (
         df_y_unfiltered
+            # Update weight column - null for samples excluded from df_y
+            .assign(weight=df_y.weight)
             .pipe(model_utils.interpolate_df, interpolate_y=False)
             .sort_values(['x'])
             .reset_index(drop=True)
-            # Update weight column in df_actuals_interpolated
-            .drop(columns=['weight'], errors='ignore')
-            .merge(df_y[['x', 'weight']], how='left')
     )
     df_actuals_interpolated['weight'] = \
         df_actuals_interpolated.weight.fillna(0)
-- 
2.43.0


From 98e4f45b6846745b59f12be7c7a855088e6e705f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:33 +0000
Subject: [PATCH 26/27] fix: evaluate a naive model together with a caching
 model

A composition passes all cached values to each of its parts, but the naive
models only accepted df_actuals: for instance naive + season_wday raised
TypeError whenever it was evaluated with the cache, as run_forecast() does.
---
 anticipy/forecast_models.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index b5f51a4..df3c46a 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -569,7 +569,8 @@ model_constant = ForecastModel(
 # regression. We still pass it to forecast.fit_model() for consistency
 # with the rest of the library
 
-def _f_model_naive(a_x, a_date, params, is_mult=False, df_actuals=None):
+def _f_model_naive(a_x, a_date, params, is_mult=False, df_actuals=None,
+                   **kwargs):
     if df_actuals is None:
         raise ValueError('model_naive requires a df_actuals argument')
     # Samples are matched by date if available: x may be shared by several dates
@@ -614,7 +615,8 @@ def _fillna_wday(df):
     return df_out
 
 
-def _f_model_snaive_wday(a_x, a_date, params, is_mult=False, df_actuals=None):
+def _f_model_snaive_wday(a_x, a_date, params, is_mult=False, df_actuals=None,
+                         **kwargs):
     """Naive model - takes last valid weekly sample"""
     if df_actuals is None:
         raise ValueError('model_snaive_wday requires a df_actuals argument')
-- 
2.43.0


From 4b0931ad0ad0f5000d8189a7927ea30dcfff5336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:33 +0000
Subject: [PATCH 27/27] fix: pass actuals on to the original of a model with
 fixed parameters

fix_params_fmodel() and get_fixed_model() dropped the keyword arguments of
the model function, so a composition with a naive model could not be
evaluated once some of its parameters were fixed.
---
 anticipy/forecast_models.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index df3c46a..2a7b72f 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -1301,7 +1301,8 @@ def get_fixed_model(forecast_model, params_fixed, is_mult=False):
         forecast_model.name + '_fixed', 0,
         f_model=lambda a_x, a_date, params, is_mult=is_mult, **kwargs:
         forecast_model.f_model(
-            a_x=a_x, a_date=a_date, params=params_fixed, is_mult=is_mult))
+            a_x=a_x, a_date=a_date, params=params_fixed, is_mult=is_mult,
+            **kwargs))
 
 
 def get_iqr_thresholds(s_diff, low=0.25, high=0.75):
@@ -1861,7 +1862,8 @@ def fix_params_fmodel(forecast_model, l_params_fixed):
     def f_model_fixed(a_x, a_date, params, is_mult=False, **kwargs):
         params_long = l_params_fixed
         params_long[i_null] = params
-        return forecast_model.f_model(a_x, a_date, params_long, is_mult)
+        return forecast_model.f_model(
+            a_x, a_date, params_long, is_mult, **kwargs)
 
     def f_init_params_fixed(a_x=None, a_y=None, a_date=None, is_mult=False):
         # return params short
-- 
2.43.0

