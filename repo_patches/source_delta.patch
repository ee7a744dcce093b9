From fdae6f3319797eb501f0a659463eaf775716802f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:43 +0000
Subject: [PATCH 01/24] fix: linear EOS alpha and beta are zero or truncated
 for integer temperatures

---
 src/momlevel/eos/linear.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/momlevel/eos/linear.py b/src/momlevel/eos/linear.py
index 300ae72..52a5e74 100644
--- a/src/momlevel/eos/linear.py
+++ b/src/momlevel/eos/linear.py
@@ -8,8 +8,6 @@ __all__ = [
     "beta",
 ]
 
-import numpy as np
-
 # In a linear equation of state, the density derivatives are typically not
 # calculated and are fixed parameters.
 
@@ -133,7 +131,7 @@ def alpha(T, S, p):
     numpy.ndarray
         Thermal expansion coefficient in deg C -1
     """
-    return -1.0 * (np.full_like(T, fill_value=DRHO_DT) / density(T, S, p))
+    return -1.0 * (drho_dtemp(T, S, p) / density(T, S, p))
 
 
 def beta(T, S, p):
@@ -159,4 +157,4 @@ def beta(T, S, p):
     numpy.ndarray
         Thermal expansion coefficient in deg C -1
     """
-    return np.full_like(T, fill_value=DRHO_DS) / density(T, S, p)
+    return drho_dsal(T, S, p) / density(T, S, p)
-- 
2.43.0


From 8f4fe25799435ae33296a3e6f82bc208d18e72b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:01 +0000
Subject: [PATCH 02/24] fix: annual averaging ignored the name of the time
 coordinate

---
 src/momlevel/steric.py | 2 +-
 src/momlevel/util.py   | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/momlevel/steric.py b/src/momlevel/steric.py
index abe23cb..6deee08 100644
--- a/src/momlevel/steric.py
+++ b/src/momlevel/steric.py
@@ -179,7 +179,7 @@ def steric(
             result[var].attrs = dset[var].attrs
 
     if annual:
-        result = annual_average(result)
+        result = annual_average(result, tcoord=tcoord)
 
     return (result, reference)
 
diff --git a/src/momlevel/util.py b/src/momlevel/util.py
index 1b56c6a..8b3afee 100644
--- a/src/momlevel/util.py
+++ b/src/momlevel/util.py
@@ -87,8 +87,8 @@ def annual_average(xobj, tcoord="time"):
             groups[grp].weighted(groups[grp][tcoord].dt.days_in_month).mean(tcoord)
         )
 
-    result = xr.concat(_annuals, dim="time")
-    result = result.transpose("time", ...)
+    result = xr.concat(_annuals, dim=tcoord)
+    result = result.transpose(tcoord, ...)
 
     def _find_ann_midpoint(year, calendar=calendar):
         """finds the midpoint of the year along the time dimension"""
@@ -102,7 +102,7 @@ def annual_average(xobj, tcoord="time"):
         for x in dict(groups).keys()
     ]
 
-    result = result.assign_coords({"time": new_time_axis})
+    result = result.assign_coords({tcoord: new_time_axis})
 
     if isinstance(xobj, xr.core.dataset.Dataset):
         for var in list(result.variables):
-- 
2.43.0


From 6a500f5de38319b09dea4309bff9ac3bf37cd472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:21 +0000
Subject: [PATCH 03/24] fix: reference datasets with a time coordinate were
 never rejected

---
 src/momlevel/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/momlevel/util.py b/src/momlevel/util.py
index 8b3afee..29b1ca8 100644
--- a/src/momlevel/util.py
+++ b/src/momlevel/util.py
@@ -727,7 +727,7 @@ def validate_dataset(dset, reference=False, strict=True, additional_vars=None):
     if reference:
         try:
             assert "time" not in [
-                x.lower for x in list(dset.coords)
+                x.lower() for x in list(dset.coords)
             ], "Reference dataset cannot contain a time coordinate"
         except AssertionError as e:
             exceptions.append(e)
-- 
2.43.0


From e32be599d7ee5d8b9fed4e9873d1219dfed917a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:27 +0000
Subject: [PATCH 04/24] fix: negative N2 adjustment ignored the name of the
 vertical coordinate

---
 src/momlevel/derived.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/momlevel/derived.py b/src/momlevel/derived.py
index 67b61b9..9d90fb9 100644
--- a/src/momlevel/derived.py
+++ b/src/momlevel/derived.py
@@ -406,7 +406,7 @@ def calc_n2(
         "units": "s-2",
     }
 
-    n2 = adjust_negative_n2(n2) if adjust_negative else n2
+    n2 = adjust_negative_n2(n2, zcoord=zcoord) if adjust_negative else n2
 
     return n2
 
@@ -817,7 +817,7 @@ def calc_wave_speed(n2, dz, zcoord="z_l"):
         in units of m s-1
     """
 
-    result = (np.sqrt(adjust_negative_n2(n2)) * dz).sum(zcoord) / np.pi
+    result = (np.sqrt(adjust_negative_n2(n2, zcoord=zcoord)) * dz).sum(zcoord) / np.pi
     result = xr.where(n2[0].isnull(), np.nan, result)
 
     result.attrs = {
-- 
2.43.0


From e05879854d781d023bf9b7aadbe4d12fd9d8204e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:32 +0000
Subject: [PATCH 05/24] fix: reference state dropped length-one spatial
 dimensions

---
 src/momlevel/reference.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/momlevel/reference.py b/src/momlevel/reference.py
index ea44af3..53e89f2 100644
--- a/src/momlevel/reference.py
+++ b/src/momlevel/reference.py
@@ -56,15 +56,15 @@ def setup_reference_state(
     # initialize reference dataset
     reference = xr.Dataset()
 
-    # extract requested time level and squeeze the arrays
+    # extract requested time level
     reference["thetao"] = (
-        dset["thetao"].isel({tcoord: time_index}).squeeze().reset_coords(drop=True)
+        dset["thetao"].isel({tcoord: time_index}).reset_coords(drop=True)
     )
     reference["so"] = (
-        dset["so"].isel({tcoord: time_index}).squeeze().reset_coords(drop=True)
+        dset["so"].isel({tcoord: time_index}).reset_coords(drop=True)
     )
     reference["volcello"] = (
-        dset["volcello"].isel({tcoord: time_index}).squeeze().reset_coords(drop=True)
+        dset["volcello"].isel({tcoord: time_index}).reset_coords(drop=True)
     )
 
     # calculate in situ reference density
-- 
2.43.0


From 84cb18951419ff56b8113eba49620e26e3014e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:38 +0000
Subject: [PATCH 06/24] fix: broadcast_trend subtracts the first point of the
 dimension it was given

---
 src/momlevel/trend.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/momlevel/trend.py b/src/momlevel/trend.py
index 779af5d..03437d3 100644
--- a/src/momlevel/trend.py
+++ b/src/momlevel/trend.py
@@ -106,8 +106,7 @@ def broadcast_trend(slope, dim_arr, subtract_time_zero=False):
 
     # Subtract first time step if asked to
     if subtract_time_zero:
-        tdim = "time"
-        result = result - result.isel({tdim: 0})
+        result = result - result.isel({dim_name: 0})
 
     return result
 
-- 
2.43.0


From be6dc6ed8187418871d253ff83fc97651093cc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:44 +0000
Subject: [PATCH 07/24] fix: tide gauge extraction never compared the y
 coordinate dimensions

---
 src/momlevel/tidegauge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/momlevel/tidegauge.py b/src/momlevel/tidegauge.py
index 3aec20e..a03ae51 100644
--- a/src/momlevel/tidegauge.py
+++ b/src/momlevel/tidegauge.py
@@ -102,7 +102,7 @@ def extract_tidegauge(
 
     # Check that dimensions are the same for x/y coords
     _xdims = tuple(_xcoord.dims)
-    _ydims = tuple(_xcoord.dims)
+    _ydims = tuple(_ycoord.dims)
     assert _xdims == _ydims
 
     # Make sure mask does not have missing values
-- 
2.43.0


From 76da3250f133ae91fec532fdb275c35f87fd35e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:20 +0000
Subject: [PATCH 08/24] fix: geolocate_points ignored the names of the location
 coordinates

---
 src/momlevel/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/momlevel/util.py b/src/momlevel/util.py
index 29b1ca8..ca8faab 100644
--- a/src/momlevel/util.py
+++ b/src/momlevel/util.py
@@ -361,8 +361,8 @@ def geolocate_points(
     df2["dim_vals"] = list(df1.index)
 
     # Clean up coordinates
-    df2["real_coords"] = list(zip(df2["lat"].values, df2["lon"].values))
-    df2 = df2.drop(["yrad", "xrad", "lat", "lon"], axis=1)
+    df2["real_coords"] = list(zip(df2[ycoord2].values, df2[xcoord2].values))
+    df2 = df2.drop(["yrad", "xrad", ycoord2, xcoord2], axis=1)
 
     return df2
 
-- 
2.43.0


From 2da3da748a877f9d6784b241fc2e4a22af784281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:26 +0000
Subject: [PATCH 09/24] fix: geolocate_points failed on warnings without a
 threshold and warned about mapped points

---
 src/momlevel/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/momlevel/util.py b/src/momlevel/util.py
index ca8faab..68894ed 100644
--- a/src/momlevel/util.py
+++ b/src/momlevel/util.py
@@ -342,8 +342,8 @@ def geolocate_points(
     df2["distance"], df2["mod_index"] = ball.query(df2[["yrad", "xrad"]].values, k=1)
     df2["distance"] = df2["distance"] * rad_earth
 
-    if not disable_warning:
-        df_missing = df2[df2["distance"] >= threshold]
+    if not disable_warning and threshold is not None:
+        df_missing = df2[df2["distance"] > threshold]
         if len(df_missing) > 0:
             for _, row in df_missing.iterrows():
                 warnings.warn(
-- 
2.43.0


From 3c22d3974151c60b3fa39beae196c7dc29a52e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:31 +0000
Subject: [PATCH 10/24] fix: deseason rewrote the attributes of its input

---
 src/momlevel/trend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/momlevel/trend.py b/src/momlevel/trend.py
index 03437d3..2585c45 100644
--- a/src/momlevel/trend.py
+++ b/src/momlevel/trend.py
@@ -741,7 +741,7 @@ def deseason(arr, tdim="time", output_format="residuals"):
     assert isinstance(arr, xr.DataArray), "Input must be an xarray DataArray"
 
     # store array attributes for reassignment at the end
-    attrs = arr.attrs
+    attrs = dict(arr.attrs)
 
     # check that the specified time dimension exists
     core_dims = list(arr.dims)
-- 
2.43.0


From a0f244038dc89cb24f483617ea84ab4421ed78c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:35 +0000
Subject: [PATCH 11/24] fix: deseason ignored the name of the time dimension

---
 src/momlevel/trend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/momlevel/trend.py b/src/momlevel/trend.py
index 2585c45..906146b 100644
--- a/src/momlevel/trend.py
+++ b/src/momlevel/trend.py
@@ -772,7 +772,7 @@ def deseason(arr, tdim="time", output_format="residuals"):
         [
             366 if x is True else 365
             for x in [
-                cftime.is_leap_year(x.year, x.calendar) for x in list(arr.time.values)
+                cftime.is_leap_year(x.year, x.calendar) for x in list(arr[tdim].values)
             ]
         ]
     )
@@ -821,7 +821,7 @@ def deseason(arr, tdim="time", output_format="residuals"):
         result = result.assign_coords(coeff=coeff_coords)
         result = result.transpose("coeff", ...)
     else:
-        result = result.transpose("time", ...)
+        result = result.transpose(tdim, ...)
 
     # Calculate if original input array was not a dask array
     if keep_lazy is False:
-- 
2.43.0


From de4458aca07adaa7c8b44c84120b15278cfa0271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:57 +0000
Subject: [PATCH 12/24] fix: seasonal_cycle_model ignored a scalar year length

---
 src/momlevel/trend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/momlevel/trend.py b/src/momlevel/trend.py
index 906146b..30d9b19 100644
--- a/src/momlevel/trend.py
+++ b/src/momlevel/trend.py
@@ -498,7 +498,7 @@ def seasonal_cycle_model(ts, daysinyear=365.0, tdim="time"):
 
     time_length = ts.shape[0]
     if isinstance(daysinyear, float) or isinstance(daysinyear, int):
-        time_dec = np.arange(time_length) / 365.0
+        time_dec = np.arange(time_length) / daysinyear
     else:
         time_dec = np.arange(time_length) / daysinyear
 
-- 
2.43.0


From 45c1fcea1affc5f3ef9f5f6a5c5af3e5476f69db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:02 +0000
Subject: [PATCH 13/24] fix: deseason decimal time jumped backwards at leap
 years

---
 src/momlevel/trend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/momlevel/trend.py b/src/momlevel/trend.py
index 30d9b19..eae2fd4 100644
--- a/src/momlevel/trend.py
+++ b/src/momlevel/trend.py
@@ -500,7 +500,7 @@ def seasonal_cycle_model(ts, daysinyear=365.0, tdim="time"):
     if isinstance(daysinyear, float) or isinstance(daysinyear, int):
         time_dec = np.arange(time_length) / daysinyear
     else:
-        time_dec = np.arange(time_length) / daysinyear
+        time_dec = np.concatenate(([0.0], np.cumsum(1.0 / daysinyear)[:-1]))
 
     assert len(ts) == len(
         time_dec
-- 
2.43.0


From adfcc24faacb5098c5eca9ccf9fe0c28add4f71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:06 +0000
Subject: [PATCH 14/24] fix: seasonal_model ignored the name of the time
 coordinate

---
 src/momlevel/trend.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/momlevel/trend.py b/src/momlevel/trend.py
index eae2fd4..309a553 100644
--- a/src/momlevel/trend.py
+++ b/src/momlevel/trend.py
@@ -412,19 +412,19 @@ def seasonal_model(da_timeseries, tcoord="time", return_model=False):
 
     model_da = xr.DataArray(
         model,
-        dims=["coeff", "time"],
-        coords={"coeff": np.arange(1, 7, 1), "time": da_timeseries[tcoord]},
+        dims=["coeff", tcoord],
+        coords={"coeff": np.arange(1, 7, 1), tcoord: da_timeseries[tcoord]},
     )
     model_da = model_da.expand_dims(dim=hashable_coords)
 
     pmodel_da = xr.DataArray(
         pmodel,
-        dims=["time", "coeff"],
-        coords={"coeff": np.arange(1, 7, 1), "time": da_timeseries[tcoord]},
+        dims=[tcoord, "coeff"],
+        coords={"coeff": np.arange(1, 7, 1), tcoord: da_timeseries[tcoord]},
     )
     pmodel_da = pmodel_da.expand_dims(dim=hashable_coords)
 
-    mcoeff = pmodel_da.dot(da_timeseries, dims="time")
+    mcoeff = pmodel_da.dot(da_timeseries, dims=tcoord)
 
     smodel = model_da.dot(mcoeff, dims="coeff")
     residuals = da_timeseries - smodel
-- 
2.43.0


From 7926461bb57083d91e4e2f7c6c5cadff8d65b4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:27 +0000
Subject: [PATCH 15/24] fix: monthly_average failed on years that do not cover
 all months

---
 src/momlevel/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/momlevel/util.py b/src/momlevel/util.py
index 68894ed..876a4cb 100644
--- a/src/momlevel/util.py
+++ b/src/momlevel/util.py
@@ -498,7 +498,7 @@ def monthly_average(xobj, tcoord="time"):
 
         bounds = [
             bounds[x] + (bounds[x + 1] - bounds[x]) / 2
-            for x in range(0, len(bounds) - 1)
+            for x in _ds["month"].values - 1
         ]
 
         _ds = _ds.rename({"month": tcoord})
-- 
2.43.0


From 38256b162604c5f7eefac6df275a7c745887de57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:51 +0000
Subject: [PATCH 16/24] fix: deseason assumed 365-day years on the 360-day
 calendar

---
 src/momlevel/trend.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/momlevel/trend.py b/src/momlevel/trend.py
index 309a553..6439edb 100644
--- a/src/momlevel/trend.py
+++ b/src/momlevel/trend.py
@@ -770,10 +770,10 @@ def deseason(arr, tdim="time", output_format="residuals"):
     # determine an array of the days in a year
     daysinyear = np.array(
         [
-            366 if x is True else 365
-            for x in [
-                cftime.is_leap_year(x.year, x.calendar) for x in list(arr[tdim].values)
-            ]
+            360
+            if x.calendar == "360_day"
+            else (366 if cftime.is_leap_year(x.year, x.calendar) else 365)
+            for x in list(arr[tdim].values)
         ]
     )
 
-- 
2.43.0


From 7e0ae0682ea8051a923daaefbc13cb5c2f185463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:53 +0000
Subject: [PATCH 17/24] fix: linear_detrend failed on variables whose own units
 contain an inverse unit

---
 src/momlevel/trend.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/momlevel/trend.py b/src/momlevel/trend.py
index 6439edb..72e8829 100644
--- a/src/momlevel/trend.py
+++ b/src/momlevel/trend.py
@@ -185,8 +185,9 @@ def _detrend_array(arr, dim="time", order=1, mode="remove"):
     slope = ds_trend[f"{varname}_slope"]
     intercept = ds_trend[f"{varname}_intercept"]
 
-    # construct the fitted line
-    fit_x = broadcast_trend(slope, arr[dim])
+    # construct the fitted line; the slope is per unit of `dim` (nanoseconds
+    # for a time axis) whatever other inverse units the variable itself has
+    fit_x = broadcast_trend(slope.assign_attrs(units="ns-1"), arr[dim])
 
     if mode not in ["remove", "correct"]:
         raise ValueError(f"Unknown detrend mode '{mode}'")
-- 
2.43.0


From a3c770cbc2e922eec9fcd4d9f3dd5c1d59fe089e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:39 +0000
Subject: [PATCH 18/24] fix: deseason coefficients failed for a single time
 series

---
 src/momlevel/trend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/momlevel/trend.py b/src/momlevel/trend.py
index 72e8829..f11b215 100644
--- a/src/momlevel/trend.py
+++ b/src/momlevel/trend.py
@@ -597,7 +597,7 @@ def _detrend_deseason_chunk(chunk, axis=-1, daysinyear=365, output_format="resid
     if output_format == "coeff":
         # Reshape the chunk to 2D: (spatial_points, time)
         original_shape = chunk.shape
-        n_spatial_points = np.prod(original_shape[:-1])
+        n_spatial_points = int(np.prod(original_shape[:-1]))
         chunk_2d = chunk.reshape(n_spatial_points, original_shape[-1])
 
         # Apply the function to each spatial point
-- 
2.43.0


From 7e9aef7826c9d04464ae3a1cef3f2d18ca0cc370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:35 +0000
Subject: [PATCH 19/24] fix: tide gauge extraction failed on a mask in another
 dimension order

---
 src/momlevel/tidegauge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/momlevel/tidegauge.py b/src/momlevel/tidegauge.py
index a03ae51..80c8db8 100644
--- a/src/momlevel/tidegauge.py
+++ b/src/momlevel/tidegauge.py
@@ -115,7 +115,7 @@ def extract_tidegauge(
         [
             _xcoord.to_dataframe(),
             _ycoord.to_dataframe(),
-            mask.to_dataframe(),
+            mask.to_dataframe(dim_order=list(_xdims)),
         ],
         axis=1,
     )
-- 
2.43.0


From aa376c19a2fac8b4675567f2e8ec98df8abd9821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:16 +0000
Subject: [PATCH 20/24] fix: density, expansion and spice calculations wiped
 the coordinate attributes of their input

---
 src/momlevel/derived.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/momlevel/derived.py b/src/momlevel/derived.py
index 9d90fb9..85ff25d 100644
--- a/src/momlevel/derived.py
+++ b/src/momlevel/derived.py
@@ -104,6 +104,7 @@ def calc_alpha(thetao, so, pres, eos="Wright"):
         so,
         pres,
         dask="allowed",
+        keep_attrs=True,
     )
 
     alpha.attrs = {
@@ -148,6 +149,7 @@ def calc_beta(thetao, so, pres, eos="Wright"):
         so,
         pres,
         dask="allowed",
+        keep_attrs=True,
     )
 
     beta.attrs = {
@@ -627,6 +629,7 @@ def calc_rho(thetao, so, pres, eos="Wright"):
         so,
         pres,
         dask="allowed",
+        keep_attrs=True,
     )
 
     rho.attrs = {
@@ -700,6 +703,7 @@ def calc_spice(thetao, so):
         thetao,
         so,
         dask="allowed",
+        keep_attrs=True,
     )
 
     pi.attrs = {
-- 
2.43.0


From af615694424ee45cdec24111df0d0f4f8577a829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:03 +0000
Subject: [PATCH 21/24] fix: sea level and stratification calculations wiped
 the coordinate attributes of their input

---
 src/momlevel/derived.py | 5 ++++-
 src/momlevel/steric.py  | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/momlevel/derived.py b/src/momlevel/derived.py
index 85ff25d..3931979 100644
--- a/src/momlevel/derived.py
+++ b/src/momlevel/derived.py
@@ -51,6 +51,9 @@ def adjust_negative_n2(n2, zcoord="z_l"):
        Adjusted Brunt-Väisälä frequency, or buoyancy frequency, in s-2
     """
 
+    # work on a copy, xr.where clears the attributes of shared coordinates
+    n2 = n2.copy()
+
     # save original data mask and attributes
     mask = xr.where(n2.isnull(), np.nan, 1.0)
     attrs = n2.attrs
@@ -822,7 +825,7 @@ def calc_wave_speed(n2, dz, zcoord="z_l"):
     """
 
     result = (np.sqrt(adjust_negative_n2(n2, zcoord=zcoord)) * dz).sum(zcoord) / np.pi
-    result = xr.where(n2[0].isnull(), np.nan, result)
+    result = xr.where(n2[0].isnull().copy(), np.nan, result)
 
     result.attrs = {
         "long name": "Ocean gravity wave speed of the first baroclinic mode",
diff --git a/src/momlevel/steric.py b/src/momlevel/steric.py
index 6deee08..853d6d3 100644
--- a/src/momlevel/steric.py
+++ b/src/momlevel/steric.py
@@ -149,7 +149,7 @@ def steric(
     # otherwise calculate the change in density relative to the reference
     else:
         delta_rho = xr.where(
-            reference["volcello"].notnull(), rho - reference["rho"], np.nan
+            reference["volcello"].notnull().copy(), rho - reference["rho"], np.nan
         )
         delta_rho = delta_rho.transpose(tcoord, ...)
         delta_rho.attrs = {
-- 
2.43.0


From 72a9e35c2339f865faa48d99e264dda85ac0b3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:31 +0000
Subject: [PATCH 22/24] fix: standard_grid_cell_area gave zero area to rows
 centered on the poles

---
 src/momlevel/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/momlevel/util.py b/src/momlevel/util.py
index 876a4cb..451856d 100644
--- a/src/momlevel/util.py
+++ b/src/momlevel/util.py
@@ -587,6 +587,8 @@ def standard_grid_cell_area(lat, lon, r_earth=6371.0e3):
     # Create coordinate arrays
     lat0 = lat[:, None] - d_lat / 2  # Add dimension for broadcasting
     lat1 = lat[:, None] + d_lat / 2
+    # rows centered near a pole end at the pole
+    lat0, lat1 = np.clip(lat0, -90.0, 90.0), np.clip(lat1, -90.0, 90.0)
     lon0 = lon[None, :] - d_lon / 2
     lon1 = lon[None, :] + d_lon / 2
 
-- 
2.43.0


From 51ff1333007d40ee53dfe1e13797f6f29df78e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:37 +0000
Subject: [PATCH 23/24] fix: steric dropped the requested storage type when
 averaging annually

---
 src/momlevel/steric.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/momlevel/steric.py b/src/momlevel/steric.py
index 853d6d3..c61e13f 100644
--- a/src/momlevel/steric.py
+++ b/src/momlevel/steric.py
@@ -180,6 +180,8 @@ def steric(
 
     if annual:
         result = annual_average(result, tcoord=tcoord)
+        for var in result.data_vars:
+            result[var].encoding["dtype"] = dtype
 
     return (result, reference)
 
-- 
2.43.0


From 422b1444ad5fbe5665a94f3f7540b295117afb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:55 +0000
Subject: [PATCH 24/24] fix: linear equation of state broadcasts against the
 pressure it ignores

density, alpha and beta (and everything built on them through xarray.apply_ufunc,
e.g. inverse_barometer) raised when the pressure has a dimension that neither
temperature nor salinity has.
---
 src/momlevel/eos/linear.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/momlevel/eos/linear.py b/src/momlevel/eos/linear.py
index 52a5e74..8dfa147 100644
--- a/src/momlevel/eos/linear.py
+++ b/src/momlevel/eos/linear.py
@@ -1,5 +1,7 @@
 """ linear.py -- Linear Equation of State """
 
+import numpy as np
+
 __all__ = [
     "density",
     "drho_dtemp",
@@ -53,6 +55,10 @@ def density(T, S, p=None, rho_ref=None):
     rho = RHO_T0_S0 if rho_ref is None else (RHO_T0_S0 - rho_ref)
     rho = rho + ((DRHO_DT * T) + (DRHO_DS * S))
 
+    # pressure has no effect on the values, but the result broadcasts against it
+    if p is not None:
+        rho = rho + 0.0 * np.isnan(p)
+
     return rho
 
 
-- 
2.43.0

