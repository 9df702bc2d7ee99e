From 4d1bae79dabae25b83ba6a61eb45534aabc870dc Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 18:59:49 +0000
Subject: [PATCH 01/46] fix: build cumulative triangles from cell totals, not
 from records in row order

---
 trikit/triangle.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 8a0ba2a..0410a30 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -461,10 +461,10 @@ class _BaseCumTriangle(_BaseTriangle):
     """
     def __init__(self, data, origin="origin", dev="dev", value="value"):
 
-        # Replace NaN values with 1.0 in value column.
-        data["cumval"] = data.groupby([origin], as_index=False)[value].cumsum()
-        data = data.drop(value, axis=1)
-        data = data.rename(columns={"cumval": value})
+        # Aggregate to one record per cell ordered by development period, since
+        # the cumulative sum is taken over records as they appear.
+        data = data[[origin, dev, value]].groupby([origin, dev], as_index=False).sum()
+        data[value] = data.groupby([origin])[value].cumsum()
         super().__init__(data=data, origin=origin, dev=dev, value=value)
 
         # Properties.
-- 
2.43.0


From 864eec20188a7030638f14607cc56de14da0fbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:57 +0000
Subject: [PATCH 02/46] fix: apply first-period adjustment to cell totals
 instead of individual records

---
 trikit/triangle.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 0410a30..c30ec75 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -45,10 +45,11 @@ class _BaseTriangle(pd.DataFrame):
         dev_ = "dev" if dev is None else dev
         value_ = "value" if value is None else value
 
-        # data2 = data.copy(deep=True)
-        data2 = self._neg_handler(data, dev_, value_)
-        data2 = data2[[origin_, dev_, value_]]
+        # The adjustment made in _neg_handler applies to triangle cells, so
+        # records sharing a cell are aggregated first.
+        data2 = data[[origin_, dev_, value_]]
         data2 = data2.groupby([origin_, dev_], as_index=False).sum()
+        data2 = self._neg_handler(data2, dev_, value_)
         data2 = data2.sort_values(by=[origin_, dev_])
         tri = data2.pivot(index=origin_, columns=dev_).rename_axis(None)
         tri.columns = tri.columns.droplevel(0)
-- 
2.43.0


From 508f1f87189358e6b828a0ed80872b03ba400aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:45 +0000
Subject: [PATCH 03/46] fix: leave records with missing values out of tabular
 data and difference cumulative data by cell

---
 trikit/triangle.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index c30ec75..feda2cb 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -47,7 +47,7 @@ class _BaseTriangle(pd.DataFrame):
 
         # The adjustment made in _neg_handler applies to triangle cells, so
         # records sharing a cell are aggregated first.
-        data2 = data[[origin_, dev_, value_]]
+        data2 = data[[origin_, dev_, value_]].dropna(subset=[value_])
         data2 = data2.groupby([origin_, dev_], as_index=False).sum()
         data2 = self._neg_handler(data2, dev_, value_)
         data2 = data2.sort_values(by=[origin_, dev_])
@@ -464,7 +464,8 @@ class _BaseCumTriangle(_BaseTriangle):
 
         # Aggregate to one record per cell ordered by development period, since
         # the cumulative sum is taken over records as they appear.
-        data = data[[origin, dev, value]].groupby([origin, dev], as_index=False).sum()
+        data = data[[origin, dev, value]].dropna(subset=[value])
+        data = data.groupby([origin, dev], as_index=False).sum()
         data[value] = data.groupby([origin])[value].cumsum()
         super().__init__(data=data, origin=origin, dev=dev, value=value)
 
@@ -1375,10 +1376,12 @@ def totri(data, tri_type="cum", data_format="incr", data_shape="tabular",
     elif data_shape == "tabular":
 
         if data_format.lower().strip().startswith("c"):
-            df = data.rename({value: "cum"}, axis=1)
-            df["incr"] = df.groupby([origin])["cum"].diff(periods=1)
-            df["incr"] = np.where(np.isnan(df["incr"]), df["cum"], df["incr"])
-            df = df.drop("cum", axis=1).rename({"incr": value}, axis=1)
+            # Differences are taken between successive cells of an origin, so
+            # aggregate by cell (which also orders them) beforehand.
+            df = data[[origin, dev, value]].dropna(subset=[value])
+            df = df.groupby([origin, dev], as_index=False).sum()
+            incr = df.groupby([origin])[value].diff(periods=1)
+            df[value] = np.where(np.isnan(incr), df[value], incr)
         else:
             df = data
     else:
-- 
2.43.0


From 05c66ba36d2cb35a09a58b81dce7b47cdce1b91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:14 +0000
Subject: [PATCH 04/46] fix: totri with data_shape=triangle ignores field names
 and keeps amounts across gaps

---
 trikit/triangle.py | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index feda2cb..9e4bafc 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -1354,24 +1354,20 @@ def totri(data, tri_type="cum", data_format="incr", data_shape="tabular",
     """
     if data_shape == "triangle":
 
-        if data_format.lower().strip().startswith("i"):
-            # data is in incremental triangle format (but not typed as such).
-            incrtri = data.reset_index(drop=False).rename({"index": "origin"}, axis=1)
-            df = pd.melt(incrtri, id_vars=["origin"], var_name="dev", value_name="value")
+        # Field names are ignored, since origin and dev are the axes of data.
+        origin, dev, value = "origin", "dev", "value"
+        df = data.rename_axis(index="origin", columns=None).reset_index(drop=False)
+        df = pd.melt(df, id_vars=["origin"], var_name="dev", value_name="value")
+        df = df[~pd.isnull(df["value"])].astype({"origin": int, "dev": int, "value": float})
+        df = df.sort_values(by=["origin", "dev"]).reset_index(drop=True)
 
-        elif data_format.lower().strip().startswith("c"):
+        if data_format.lower().strip().startswith("c"):
             # data is in cumulative triangle format (but not typed as such).
-            incrtri = data.diff(axis=1)
-            incrtri.iloc[:, 0] = data.iloc[:, 0]
-            incrtri = incrtri.reset_index(drop=False).rename({"index": "origin"}, axis=1)
-            df = pd.melt(incrtri, id_vars=["origin"], var_name="dev", value_name="value")
-            df = df[~pd.isnull(df["value"])].astype({"origin": int, "dev": int, "value": float})
+            incr = df.groupby(["origin"])["value"].diff(periods=1)
+            df["value"] = np.where(np.isnan(incr), df["value"], incr)
 
-        else:
-            raise NameError("Invalid data_format argument: `{}`.".format(tri_type))
-
-        df = df[~pd.isnull(df["value"])].astype({"origin": int, "dev": int, "value": float})
-        df = df.sort_values(by=["origin", "dev"]).reset_index(drop=True)
+        elif not data_format.lower().strip().startswith("i"):
+            raise NameError("Invalid data_format argument: `{}`.".format(data_format))
 
     elif data_shape == "tabular":
 
-- 
2.43.0


From 6479c0395abd87e6a4d29bba798c3a7aa6a7c7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:59 +0000
Subject: [PATCH 05/46] fix: triangles built with custom field names can be
 tabulated, converted and passed to estimators

---
 trikit/estimators/bootstrap.py |  3 ++-
 trikit/triangle.py             | 14 +++++++-------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index 3eccf34..a59cd54 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -483,7 +483,8 @@ class BootstrapChainLadder(BaseRangeEstimator):
             1., dfm["value"].values
             )
 
-        dfi = self.tri.to_tbl(dropna=False).drop("value", axis=1)
+        dfi = self.tri.to_tbl(dropna=False).set_axis(["origin", "dev", "value"], axis=1)
+        dfi = dfi.drop("value", axis=1)
         dfp = dfi.merge(dfm, how="outer", on=["origin", "dev"])
         dfp["rectype"] = np.where(np.isnan(dfp["value"].values), "forecast", "actual")
         dfp = dfp.rename({"value": "incr"}, axis=1)
diff --git a/trikit/triangle.py b/trikit/triangle.py
index 9e4bafc..e9e4916 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -210,10 +210,10 @@ class _BaseTriangle(pd.DataFrame):
         """
         if self._latest is None:
             lindx = self.apply(lambda devp: devp.last_valid_index(), axis=1)
-            dflindx = lindx.to_frame().reset_index(drop=False).rename(
-                {0: "dev", "index": self.origin}, axis=1)
+            dflindx = lindx.to_frame().reset_index(drop=False)
+            dflindx.columns = [self.origin, self.dev]
             self._latest = dflindx.merge(self.to_tbl(), on=[self.origin, self.dev]).rename(
-                {self.value: "latest"}, axis=1)
+                {self.origin: "origin", self.dev: "dev", self.value: "latest"}, axis=1)
             self._latest = self._latest[["origin", "dev", "latest"]].sort_index()
         return(self._latest)
 
@@ -348,7 +348,7 @@ class _BaseTriangle(pd.DataFrame):
         -------
         pd.DataFrame
         """
-        tri = self.reset_index(drop=False).rename({"index": "origin"}, axis=1)
+        tri = self.reset_index(drop=False).rename({"index": self.origin}, axis=1)
         df = pd.melt(tri, id_vars=[self.origin], var_name=self.dev, value_name=self.value)
         if dropna:
             df = df[~np.isnan(df[self.value])]
@@ -433,7 +433,7 @@ class IncrTriangle(_BaseIncrTriangle):
         -------
         trikit.triangle.CumTriangle
         """
-        return(CumTriangle(self.to_tbl(), origin="origin", dev="dev", value="value"))
+        return(CumTriangle(self.to_tbl(), origin=self.origin, dev=self.dev, value=self.value))
 
 
 
@@ -967,7 +967,7 @@ class CumTriangle(_BaseCumTriangle):
         if kwargs:
             pltkwargs.update(kwargs)
 
-        data = self.to_tbl()
+        data = self.to_tbl().set_axis(["origin", "dev", "value"], axis=1)
         grps = data.groupby("origin", as_index=False)
         data_list = [grps.get_group(ii) for ii in self.origins]
         xticks = np.sort(data.dev.unique())
@@ -1051,7 +1051,7 @@ class CumTriangle(_BaseCumTriangle):
             pltkwargs.update(kwargs)
 
         sns.set_context(context)
-        data = self.to_tbl()
+        data = self.to_tbl().set_axis(["origin", "dev", "value"], axis=1)
 
         with sns.axes_style(axes_style):
 
-- 
2.43.0


From 7a7f2d3194730de8519f1a837103e3b8e36dac5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:11 +0000
Subject: [PATCH 06/46] fix: IncrTriangle.to_cum replaces missing actuals as
 totri does

---
 trikit/triangle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index e9e4916..fd5969a 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -433,7 +433,9 @@ class IncrTriangle(_BaseIncrTriangle):
         -------
         trikit.triangle.CumTriangle
         """
-        return(CumTriangle(self.to_tbl(), origin=self.origin, dev=self.dev, value=self.value))
+        return(totri(
+            self.to_tbl(), tri_type="cum", origin=self.origin, dev=self.dev, value=self.value
+            ))
 
 
 
-- 
2.43.0


From 75051fbb036cd7497f3cb7b5bd15bad7d881addf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:33 +0000
Subject: [PATCH 07/46] fix: base_cl leaves a Series of selected factors
 unmodified and matches it to development periods

---
 trikit/estimators/base.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/trikit/estimators/base.py b/trikit/estimators/base.py
index 4d42209..895b608 100644
--- a/trikit/estimators/base.py
+++ b/trikit/estimators/base.py
@@ -103,9 +103,11 @@ class BaseChainLadder:
                             )
                         )
 
-                # Append tail factor to sel.
-                increment = np.unique(sel.index[1:] - sel.index[:-1])[0]
-                sel.loc[sel.index.max() + increment] = tail
+                # Match sel to development periods when labeled by them, otherwise
+                # by position. Append tail factor to a copy of sel.
+                if set(sel.index) == set(self.tri.devp.iloc[:-1]):
+                    sel = sel.reindex(self.tri.devp.iloc[:-1])
+                sel = pd.Series(np.append(sel.values, tail), index=self.tri.devp.values)
 
             elif isinstance(sel, (Sequence, np.ndarray)):
                 sel = np.asarray(sel, dtype=float)
-- 
2.43.0


From 9904e8a27cafc962d933a39a772b474037d673b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:56 +0000
Subject: [PATCH 08/46] fix: weighted link ratio averages honor exclusions made
 in a2aind

---
 trikit/triangle.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index fd5969a..0f43c5e 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -826,6 +826,10 @@ class _BaseCumTriangle(_BaseTriangle):
                         first_cell_indx = (final_cell_indx - duration) if \
                             (final_cell_indx - duration) >= 0 else 0
 
+                    # Disregard cells associated with excluded link ratios.
+                    t_ic_incl = self.a2aind.iloc[:, col].reindex(self.index) != 0
+                    t_ic_1, t_ic_2 = t_ic_1.where(t_ic_incl), t_ic_2.where(t_ic_incl)
+
                     # Divide sum of t_ic_2 by t_ic_1.
                     sum_ic_2 = t_ic_2[first_cell_indx:final_cell_indx].sum()
                     sum_ic_1 = t_ic_1[first_cell_indx:final_cell_indx].sum()
-- 
2.43.0


From dd633ef627d477c89a7c5e0c79e18e967fe1bc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:04 +0000
Subject: [PATCH 09/46] fix: medial average is undefined instead of failing
 when no link ratios remain

---
 trikit/triangle.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 0f43c5e..0d5f733 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -554,7 +554,10 @@ class _BaseCumTriangle(_BaseTriangle):
 
         # Return first element of arr_all if all array elements are the same.
         arr_all = np.sort(np.asarray(vals, dtype=float))
-        if np.all(arr_all == arr_all[0]):
+        if arr_all.shape[0] == 0:
+            avg = np.NaN
+
+        elif np.all(arr_all == arr_all[0]):
             avg = arr_all[0]
 
         elif arr_all.shape[0] == 1:
-- 
2.43.0


From 7fea600189afe546be83fb56ac8e4858d7f43204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:51 +0000
Subject: [PATCH 10/46] fix: label the tail factor with the last development
 period so uneven periods are supported

---
 trikit/estimators/base.py | 3 +--
 trikit/estimators/mack.py | 5 +----
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/trikit/estimators/base.py b/trikit/estimators/base.py
index 895b608..a8c8167 100644
--- a/trikit/estimators/base.py
+++ b/trikit/estimators/base.py
@@ -174,8 +174,7 @@ class BaseChainLadder:
         """
         # Determine index for tail factor.
         ldfs = self.tri.a2a_avgs().loc[sel]
-        increment = np.unique(ldfs.index[1:] - ldfs.index[:-1])[0]
-        ldfs.loc[ldfs.index.max() + increment] = tail
+        ldfs.loc[self.tri.devp.max()] = tail
         return(pd.Series(ldfs, name="ldf").sort_index())
 
 
diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index 81a3e20..3f7dc04 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -267,8 +267,7 @@ class MackChainLadder(BaseRangeEstimator):
         """
         C, w = self.mod_tri, self.mod_a2aind
         ldfs = (self.tri.a2a * w * C**alpha).sum(axis=0) / (w * C**alpha).sum(axis=0)
-        increment = np.unique(ldfs.index[1:] - ldfs.index[:-1])[0]
-        ldfs.loc[ldfs.index.max() + increment] = tail
+        ldfs.loc[self.tri.devp.max()] = tail
         return(ldfs)
 
 
@@ -747,8 +746,6 @@ class MackChainLadderResult(BaseRangeEstimatorResult):
         dflvi = self.tri.a2a_lvi
         dfhl = self.tri.a2a_assignment
         dflvi = dflvi.reset_index(drop=False).rename({"index": "dev"}, axis=1)
-        devpinc = dflvi["dev"].diff(1).dropna().unique().item()
-        origininc = dflvi["origin"].diff(-1).dropna().unique().item()
         diag_indx = sorted(list(enumerate(dflvi["dev"].values[::-1], start=1)), key=lambda v: v[-1])
         dfhl2 = dfhl.reset_index(drop=False).rename({"index": "origin"}, axis=1).melt(
             id_vars=["origin"], var_name=["dev"]).dropna(subset=["value"])
-- 
2.43.0


From a2ef553b01adcf8ccd3a4b757fdeb40dd18986f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:11 +0000
Subject: [PATCH 11/46] fix: Mack process error uses the variance assumption
 implied by alpha

---
 trikit/estimators/mack.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index 3f7dc04..25e2ca8 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -121,7 +121,7 @@ class MackChainLadder(BaseRangeEstimator):
         devpvar = self._devp_variance(ldfs=ldfs, alpha=alpha)
         ldfvar = self._ldf_variance(devpvar=devpvar, alpha=alpha)
         proc_error = pd.Series(
-            self._process_error(ldfs=ldfs, devpvar=devpvar).iloc[:, -1].replace(np.NaN, 0),
+            self._process_error(ldfs=ldfs, devpvar=devpvar, alpha=alpha).iloc[:, -1].replace(np.NaN, 0),
             name="process_error", dtype=float
             )
         param_error = pd.Series(
@@ -333,7 +333,7 @@ class MackChainLadder(BaseRangeEstimator):
         return(devpvar)
 
 
-    def _process_error(self, ldfs, devpvar):
+    def _process_error(self, ldfs, devpvar, alpha=1):
         """
         Return a triangle-shaped DataFrame containing elementwise process
         error. To obtain the process error for a given origin period,
@@ -350,6 +350,10 @@ class MackChainLadder(BaseRangeEstimator):
             :math:`\\hat{\\sigma}^{2}_{k}` in the literature. For a triangle with
             n development periods, devpvar will contain n-1 elements.
 
+        alpha: {0, 1, 2}
+            The variance of a cell given the preceding cell :math:`C_{k}` is
+            :math:`\\hat{\\sigma}^{2}_{k} C_{k}^{2 - \\alpha}`.
+
         Returns
         -------
         pd.DataFrame
@@ -375,10 +379,10 @@ class MackChainLadder(BaseRangeEstimator):
             latest_devp = latest[latest["origin"] == ii]["dev"].item()
             latest_cum = trisqrd.at[ii, latest_devp]
             kk0 = n + 2 - ii
-            dfpe.at[ii, kk0] = latest_cum * devpvar.iloc[kk0 - 2]
+            dfpe.at[ii, kk0] = latest_cum**(2 - alpha) * devpvar.iloc[kk0 - 2]
             for kk in range(kk0 + 1, n + 1):
                 term0 = (ldfs.iloc[kk - 2]**2) * dfpe.at[ii, kk - 1]
-                term1 = trisqrd.at[ii, kk - 1] * devpvar.iloc[kk - 2]
+                term1 = trisqrd.at[ii, kk - 1]**(2 - alpha) * devpvar.iloc[kk - 2]
                 dfpe.at[ii, kk] = term0 + term1
 
         # Re-index dfpe to match self.tri.
-- 
2.43.0


From 7135cfc8b7890d7dd395e681f5e8316c8c840c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:20 +0000
Subject: [PATCH 12/46] fix: Mack aggregate standard error uses the link ratio
 variances implied by alpha

---
 trikit/estimators/mack.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index 25e2ca8..101d31b 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -164,15 +164,12 @@ class MackChainLadder(BaseRangeEstimator):
         # Compute mse for aggregate reserve.
         n = self.tri.devp.size
         mse_total = pd.Series(index=dfsumm.index[:-1], dtype=float)
-        quotient = pd.Series(devpvar / ldfs**2, dtype=float).reset_index(drop=True)
+        quotient = pd.Series(ldfvar / ldfs**2, dtype=float).reset_index(drop=True)
         quotient.index = quotient.index + 1
         for indx, ii in enumerate(mse_total.index[1:], start=2):
             mse_ii, ult_ii = mse[ii], ultimates[ii]
             ults_sum = ultimates[ultimates.index > ii].dropna().sum()
-            rh_sum = sum(
-                quotient[jj] / sum(trisqrd.loc[mm, jj]
-                    for mm in range(1, (n - jj) + 1)) for jj in range(n + 1 - indx, n)
-                    )
+            rh_sum = sum(quotient[jj] for jj in range(n + 1 - indx, n))
             mse_total[ii] = mse_ii + 2 * ult_ii * ults_sum * rh_sum
 
         # Reset trisqrd columns and index back to original values.
-- 
2.43.0


From b14d669700eb517611f301e33bbb2ab1155b1be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:29 +0000
Subject: [PATCH 13/46] fix: Mack log-normal mean is no longer floored for
 reserves below 1

---
 trikit/estimators/mack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index 101d31b..de13b4e 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -184,7 +184,7 @@ class MackChainLadder(BaseRangeEstimator):
         elif dist == "lognorm":
             with np.errstate(divide="ignore"):
                 std_params = np.sqrt(np.log(1 + (dfsumm["std_error"] / dfsumm["reserve"])**2)).replace(np.NaN, 0)
-                mean_params = np.clip(np.log(dfsumm["reserve"]), a_min=0, a_max=None) - .50 * std_params**2
+                mean_params = np.log(dfsumm["reserve"]).replace(-np.inf, 0) - .50 * std_params**2
                 rv_list = [lognorm(scale=np.exp(ii), s=jj) for ii, jj in zip(mean_params, std_params)]
         else:
             raise ValueError(
-- 
2.43.0


From 81d6babb6222af5310a02bfb0b0742a288291bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:37 +0000
Subject: [PATCH 14/46] fix: Mack standard errors are not lost when the final
 factors show no variance

---
 trikit/estimators/mack.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index de13b4e..2cb3586 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -323,7 +323,8 @@ class MackChainLadder(BaseRangeEstimator):
                 (w[jj] * (C[jj]**alpha) * (F[jj] - ldfs[jj])**2).sum() / (n - indx - 2)
 
         # Calculate development period variance for period n-1.
-        devpvar.iloc[-1] = np.min((
+        # Ratio is undefined if there is no variance in either preceding period.
+        devpvar.iloc[-1] = np.nanmin((
             devpvar.iloc[-2]**2 / devpvar.iloc[-3],
             np.min([devpvar.iloc[-2], devpvar.iloc[-3]])
             ))
-- 
2.43.0


From d19754cdf79370d18a19c560dedbaf91ffa0a8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:45 +0000
Subject: [PATCH 15/46] fix: Mack standardized residuals divide by n - 1

---
 trikit/estimators/mack.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index 2cb3586..cf83fea 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -570,7 +570,7 @@ class MackChainLadderResult(BaseRangeEstimatorResult):
             yact = yact_init[comp_indices]
             yhat = self.tri.loc[comp_indices, x] * self.ldfs.get(x)
             dfresid = pd.Series(yhat - yact, name="residuals").to_frame()
-            dfresid["sigma"] = np.sqrt((dfresid["residuals"]**2).sum() / n - 1)
+            dfresid["sigma"] = np.sqrt((dfresid["residuals"]**2).sum() / (n - 1))
             dfresid["std_residuals"] = dfresid["residuals"] / (dfresid["sigma"] * np.sqrt((n - 1) / n))
             dfresid["t"] = x
             resids_list.append(dfresid)
@@ -592,7 +592,7 @@ class MackChainLadderResult(BaseRangeEstimatorResult):
             dfresid = dfresid.dropna(how="any")
             dfresid["residuals"] = dfresid["yhat"] - dfresid["yact"]
             n = dfresid.shape[0]
-            dfresid["sigma"] = np.sqrt((dfresid["residuals"]**2).sum() / n - 1)
+            dfresid["sigma"] = np.sqrt((dfresid["residuals"]**2).sum() / (n - 1))
             dfresid["std_residuals"] = dfresid["residuals"] / (dfresid["sigma"] * np.sqrt((n - 1) / n))
             dfresid["t"] = origin
             resids_list.append(dfresid)
-- 
2.43.0


From 25b5c71456ebc98ed8e4b6c788262a63d92f6aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:11 +0000
Subject: [PATCH 16/46] fix: bootstrap reserves are correct when the first
 development period is not 1

---
 trikit/estimators/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index a59cd54..4d2675e 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -598,7 +598,7 @@ class BootstrapChainLadder(BaseRangeEstimator):
             columns={"cum_final": "samp_cum"})
         dfsqrd = pd.concat([dffcst, dfacts], sort=True).sort_values(
             by=["sim", "origin", "dev"])
-        dfsqrd["_dev1_ind"] = (dfsqrd["dev"].values == 1) * 1
+        dfsqrd["_dev1_ind"] = (dfsqrd["dev"].values == dfsqrd["dev"].values.min()) * 1
         dfsqrd["_incr_dev1"] = dfsqrd["_dev1_ind"].values * dfsqrd["samp_cum"].values
         dfsqrd["_incr_dev2"] = dfsqrd.groupby(["sim", "origin"])["samp_cum"].diff(periods=1)
         dfsqrd["_incr_dev2"] = np.where(
-- 
2.43.0


From f4d0467337fbe067a50068921a1c9847a2450c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:19 +0000
Subject: [PATCH 17/46] fix: bootstrap resamples cells having negative fitted
 increments

---
 trikit/estimators/bootstrap.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index 4d2675e..0e916fc 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -42,7 +42,7 @@ class BootstrapChainLadder(BaseRangeEstimator):
     5.  Sample with replacement from the adjusted Pearson residuals.
 
     6.  Calculate the triangle of sampled incremental losses
-        (I^ = m + r_adj * sqrt(m)), where I^ = Resampled incremental loss,
+        (I^ = m + r_adj * sqrt(|m|)), where I^ = Resampled incremental loss,
         m = Incremental fitted loss (from [2]) and r_adj = Adjusted Pearson
         residuals.
 
@@ -488,7 +488,7 @@ class BootstrapChainLadder(BaseRangeEstimator):
         dfp = dfi.merge(dfm, how="outer", on=["origin", "dev"])
         dfp["rectype"] = np.where(np.isnan(dfp["value"].values), "forecast", "actual")
         dfp = dfp.rename({"value": "incr"}, axis=1)
-        dfp["incr_sqrt"] = np.sqrt(dfp["incr"].values)
+        dfp["incr_sqrt"] = np.sqrt(np.abs(dfp["incr"].values))
         dfrtypes = {"origin": int, "dev": int, "incr": float,
                    "incr_sqrt": float, "rectype": str}
         dfrcols = ["origin", "dev", "incr", "rectype", "incr_sqrt"]
@@ -766,7 +766,7 @@ class BootstrapChainLadderResult(BaseRangeEstimatorResult):
                 The actual incremental loss amount obtain from the fitted triangle.
 
             - incr_sqrt:
-                The square root of incr.
+                The square root of the absolute value of incr.
 
             - l_act_cum:
                 The latest actual cumulative loss amount for dev/origin.
-- 
2.43.0


From 2d98abe34bb3578e0c2da321687cdb80c543bb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:27 +0000
Subject: [PATCH 18/46] fix: bootstrap random_state accepts numpy integers and
 defaults to numpy's global state as documented

---
 trikit/estimators/bootstrap.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index 0e916fc..703a8c2 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -464,12 +464,12 @@ class BootstrapChainLadder(BaseRangeEstimator):
         pd.DataFrame
         """
         if random_state is not None:
-            if isinstance(random_state, int):
+            if isinstance(random_state, (int, np.integer)):
                 prng = RandomState(random_state)
             elif isinstance(random_state, RandomState):
                 prng = random_state
         else:
-            prng = RandomState()
+            prng = np.random.mtrand._rand
 
         sampling_dist = sampling_dist.flatten()
         fti = fitted_tri_incr.reset_index(drop=False).rename({"index": "origin"}, axis=1)
@@ -654,12 +654,12 @@ class BootstrapChainLadder(BaseRangeEstimator):
         """
         # Initialize pseudo random number generator.
         if random_state is not None:
-            if isinstance(random_state, int):
+            if isinstance(random_state, (int, np.integer)):
                 prng = RandomState(random_state)
             elif isinstance(random_state, RandomState):
                 prng = random_state
         else:
-            prng = RandomState()
+            prng = np.random.mtrand._rand
 
         # Parameterize distribution for the incorporation of process variance.
         if procdist.strip().lower() == "gamma":
-- 
2.43.0


From 22210c95c278276ff6264bf96abf989cb46864d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:34 +0000
Subject: [PATCH 19/46] fix: bootstrap residuals_detail no longer indexes a
 scalar mode

---
 trikit/estimators/bootstrap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index 703a8c2..828a2e3 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -944,7 +944,7 @@ class BootstrapChainLadderResult(BaseRangeEstimatorResult):
                 unscaled_max = unscaled.max(axis=0)
                 unscaled_mean = unscaled.mean(axis=0)
                 unscaled_skew = stats.skew(unscaled, axis=0, nan_policy="omit")
-                unscaled_mode = stats.mode(unscaled, axis=0, nan_policy="omit").mode[0]
+                unscaled_mode = stats.mode(unscaled, axis=0, nan_policy="omit", keepdims=True).mode[0]
                 unscaled_cvar = stats.variation(unscaled, axis=0, nan_policy="omit")
                 unscaled_kurt = stats.kurtosis(unscaled, axis=0, nan_policy="omit")
                 unscaled_var = unscaled.var(ddof=1, axis=0)
@@ -957,7 +957,7 @@ class BootstrapChainLadderResult(BaseRangeEstimatorResult):
                 adjusted_max = adjusted.max(axis=0)
                 adjusted_mean = adjusted.mean(axis=0)
                 adjusted_skew = stats.skew(adjusted, axis=0, nan_policy="omit")
-                adjusted_mode = stats.mode(adjusted, axis=0, nan_policy="omit").mode[0]
+                adjusted_mode = stats.mode(adjusted, axis=0, nan_policy="omit", keepdims=True).mode[0]
                 adjusted_cvar = stats.variation(adjusted, axis=0, nan_policy="omit")
                 adjusted_kurt = stats.kurtosis(adjusted, axis=0, nan_policy="omit")
                 adjusted_var = adjusted.var(ddof=1, axis=0)
-- 
2.43.0


From f069ed94cd5ea977af280a7a55b032966b68f0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:07 +0000
Subject: [PATCH 20/46] fix: base_cl result plot draws actuals and forecasts

---
 trikit/estimators/base.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/trikit/estimators/base.py b/trikit/estimators/base.py
index a8c8167..2903855 100644
--- a/trikit/estimators/base.py
+++ b/trikit/estimators/base.py
@@ -526,18 +526,22 @@ class BaseChainLadderResult:
                 )
 
             if hue_kws is not None:
-                # Determine whether the length of each element of hue_kws is 4.
-                if all(len(hue_kws[i]) == 4 for i in hue_kws):
+                # Determine whether the length of each element of hue_kws is 2.
+                if all(len(hue_kws[i]) == 2 for i in hue_kws):
                     huekwargs.update(hue_kws)
                 else:
                     warnings.warn("hue_kws overrides not correct length - Ignoring.")
 
+            # Style overrides in kwargs apply to both forecasts and actuals.
+            huekwargs.update({kk: [vv, vv] for kk, vv in kwargs.items()})
+
             grid = sns.FacetGrid(
                 data, col="origin", hue="rectype", hue_kws=huekwargs,
                 col_wrap=col_wrap, margin_titles=False, despine=True, sharex=False,
                 sharey=False, hue_order=["forecast", "actual"]
                 )
 
+            grid.map(plt.plot, "dev", "loss")
             devp_xticks = np.sort(data.dev.unique())
             devp_xticks_str = [
                 str(ii) if ii != devp_xticks.max() else "ult" for ii in devp_xticks
-- 
2.43.0


From d73bbc593ab30795baacf436a48f538975b7841b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:24 +0000
Subject: [PATCH 21/46] fix: plot y axis limits no longer fail for powers of 10
 and amounts of at most 1 or over 10 billion

---
 trikit/estimators/base.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/trikit/estimators/base.py b/trikit/estimators/base.py
index 2903855..10b5b00 100644
--- a/trikit/estimators/base.py
+++ b/trikit/estimators/base.py
@@ -347,9 +347,7 @@ class BaseChainLadderResult:
         -------
         tuple of ndarrays
         """
-        ref_divs = np.power(10, np.arange(10))
-        div_index = np.where((x / ref_divs) > 1)[0].max()
-        x_div = ref_divs[div_index]
+        x_div = 10.**np.floor(np.log10(x)) if x > 0 else 1.
 
         # Find upper limit for y-axis given origin_max_val.
         yuls_seq = x_div * np.arange(1, 11)
-- 
2.43.0


From 58e5146b0fa2c62a31fba58fbe394cc8ea79f3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:40 +0000
Subject: [PATCH 22/46] fix: Mack plot uses the estimated reserve distributions

---
 trikit/estimators/mack.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index cf83fea..0f88f13 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -903,7 +903,7 @@ class MackChainLadderResult(BaseRangeEstimatorResult):
         import seaborn as sns
         sns.set_context(context)
 
-        data = self._data_transform()
+        data = self._mack_data_transform()
 
         with sns.axes_style(axes_style):
             qtls, qtlhdrs = self._qtls_formatter(q)
@@ -915,7 +915,7 @@ class MackChainLadderResult(BaseRangeEstimatorResult):
             grid.set_axis_labels("", "")
             grid.map(plt.plot, "x", "y", color=dist_color, linewidth=1.25)
 
-            for origin, ax_ii in zip(self.rvs.index[1:], grid.axes):
+            for origin, ax_ii in zip(data["origin"].unique(), grid.axes):
                 # Determine reserve estimate at mean and specified quantiles.
                 rv_ii = self.rvs[origin]
                 with np.errstate(invalid="ignore"):
-- 
2.43.0


From 01ef348c11ede57a975a7a5ff123b73e20bac03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:56 +0000
Subject: [PATCH 23/46] fix: Mack diagnostics refers to development periods by
 their field name

---
 trikit/estimators/mack.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index 0f88f13..75efcec 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -1015,7 +1015,7 @@ class MackChainLadderResult(BaseRangeEstimatorResult):
 
         # Upper right facet represents Chain Ladder development paths (trisqrd).
         for ii, hex_color, dforg in zip(range(len(colors_hex)), colors_hex, data_list):
-            xx = dforg["devp"].values
+            xx = dforg["dev"].values
             yy = dforg["value"].values
             marker = self._markers[ii % len(self._markers)]
             yy_divisor = 1  # 1000 if np.all(yy>1000) else 1
@@ -1034,8 +1034,8 @@ class MackChainLadderResult(BaseRangeEstimatorResult):
         ax[0, 1].set_xlabel("dev", fontsize=8)
         ax[0, 1].set_ylabel(yy_axis_label, fontsize=7)
         ax[0, 1].set_ylim(bottom=0)
-        ax[0, 1].set_xlim(left=cl_data["devp"].min())
-        ax[0, 1].set_xticks(np.sort(cl_data["devp"].unique()))
+        ax[0, 1].set_xlim(left=cl_data["dev"].min())
+        ax[0, 1].set_xticks(np.sort(cl_data["dev"].unique()))
         ax[0, 1].tick_params(axis="x", which="major", direction="in", labelsize=6)
         ax[0, 1].tick_params(axis="y", which="major", direction="in", labelsize=6)
         ax[0, 1].xaxis.set_ticks_position("none")
-- 
2.43.0


From 911a85be4bbe364e394bcef61fc7950b309e5a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:15 +0000
Subject: [PATCH 24/46] fix: bootstrap plot computes the interval it highlights
 instead of raising

---
 trikit/estimators/base.py      | 8 +++++++-
 trikit/estimators/bootstrap.py | 4 ++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/trikit/estimators/base.py b/trikit/estimators/base.py
index 10b5b00..f672502 100644
--- a/trikit/estimators/base.py
+++ b/trikit/estimators/base.py
@@ -660,7 +660,7 @@ class BaseRangeEstimatorResult(BaseChainLadderResult):
 
 
 
-    def _qtls_formatter(self, q):
+    def _qtls_formatter(self, q, two_sided=False):
         """
         Return array_like of actual and formatted quantiles.
 
@@ -670,12 +670,18 @@ class BaseRangeEstimatorResult(BaseChainLadderResult):
             Quantile or sequence of quantiles to compute, which must be
             between 0 and 1 inclusive.
 
+        two_sided: bool
+            Whether to return the bounds of the two-sided interval(s) given by
+            ``q`` instead of ``q``. Defaults to False.
+
         Returns
         -------
         tuple of list
         """
         qtls = np.asarray([q] if isinstance(q, (float, int)) else q)
         if np.all(np.logical_and(qtls <= 1, qtls >= 0)):
+            if two_sided:
+                qtls = np.append((1 - qtls) / 2., (1 + qtls) / 2.)
             qtls = np.sort(np.unique(qtls))
         else:
             raise ValueError("Values for quantiles must fall between [0, 1].")
diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index 828a2e3..fd44eed 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -1070,11 +1070,11 @@ class BootstrapChainLadderResult(BaseRangeEstimatorResult):
         dflist = []
         for ii, jj in zip(qtls, qtlhdrs):
             dfqtl = dfsims.groupby(["origin", "dev"], as_index=False).aggregate(
-                "quantile", q=ii, method="linear").rename(
+                "quantile", q=ii, interpolation="linear").rename(
                 {"ultimate": jj}, axis=1
                 )
             dftotal_qtl = dftotal.aggregate(
-                "quantile", q=ii, method="linear").rename({"ultimate": jj},
+                "quantile", q=ii, interpolation="linear").rename({"ultimate": jj},
                 axis=1
                 )
             dflist.append(pd.concat([dfqtl, dftotal_qtl]))
-- 
2.43.0


From de8e00e1b1c310b534eb6b577beb056089c68ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:36 +0000
Subject: [PATCH 25/46] fix: faceted triangle plot reads tick positions instead
 of parsing formatted labels

---
 trikit/triangle.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 0d5f733..f34dd29 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -1087,9 +1087,7 @@ class CumTriangle(_BaseCumTriangle):
             for ii, _ in enumerate(g.axes):
                 ax_ = g.axes[ii]
 
-                ylabelss = [jj.get_text() for jj in list(ax_.get_yticklabels())]
-                ylabelsn = [float(jj.replace(u"\u2212", "-")) for jj in ylabelss]
-                ylabelsn = [jj for jj in ylabelsn if jj >= 0]
+                ylabelsn = [jj for jj in ax_.get_yticks() if jj >= 0]
                 ylabels = ["{:,.0f}".format(jj) for jj in ylabelsn]
                 if (len(ylabels) > 0):
                     ax_.set(yticks=ylabelsn)
-- 
2.43.0


From 99f5c916948988a0619af92014a2158eb2150644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:59 +0000
Subject: [PATCH 26/46] fix: bootstrap hist leaves reserve_dist unmodified

---
 trikit/estimators/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index fd44eed..ffa73a3 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -1328,7 +1328,7 @@ class BootstrapChainLadderResult(BaseRangeEstimatorResult):
         # data1 = data0.groupby("sim", as_index=False)[["reserve"]].sum()
         # data1["origin"] ="total"
         # data = pd.concat([data0, data1])
-        data = self.reserve_dist
+        data = self.reserve_dist.copy(deep=True)
 
         # Get mean, min and max ultimate and reserve by origin.
         med_data = data.groupby("origin", as_index=False)[["reserve"]].median().rename(
-- 
2.43.0


From 85756560d4c661e5d0dcac42b99edd8a43562df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:20 +0000
Subject: [PATCH 27/46] fix: label 11th, 12th and 13th percentiles correctly

---
 trikit/estimators/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trikit/estimators/base.py b/trikit/estimators/base.py
index f672502..67be9d7 100644
--- a/trikit/estimators/base.py
+++ b/trikit/estimators/base.py
@@ -690,7 +690,7 @@ class BaseRangeEstimatorResult(BaseChainLadderResult):
             "{:.5f}".format(ii).rstrip("0").rstrip(".") for ii in 100 * qtls
             ]
         qtlhdrs = [
-            ii + "th" if "." in ii else ii + self.dsuffix[ii[-1]] for ii in qtlhdrs
+            ii + "th" if "." in ii or ii in ("11", "12", "13") else ii + self.dsuffix[ii[-1]] for ii in qtlhdrs
             ]
         return(qtls.tolist(), qtlhdrs)
 
-- 
2.43.0


From 8c98984cd9e5f7dd2bd85cd01ee7c1d9d283aaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:33 +0000
Subject: [PATCH 28/46] fix: only link ratios equal to the median are assigned
 0 in a2a_assignment

---
 trikit/triangle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index f34dd29..377ce30 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -771,7 +771,7 @@ class _BaseCumTriangle(_BaseTriangle):
                 for r_indx, a2a in enumerate(self.a2a[devp]):
                     origin = self.a2a.index[r_indx]
                     if not np.isnan(a2a):
-                        if np.allclose(a2a, devp_median):
+                        if a2a == devp_median:
                             self._a2a_assignment.at[origin, devp] = 0
                         elif a2a > devp_median:
                             self._a2a_assignment.at[origin, devp] = 1
-- 
2.43.0


From ec0345df8108748050754835505f73adc331f2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 29/46] fix: to_incr keeps amounts recorded after a cell that
 stays empty

---
 trikit/triangle.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 377ce30..0c2fd41 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -896,8 +896,9 @@ class CumTriangle(_BaseCumTriangle):
             In [4]: type(incrtri)
             Out[4]: triangle.IncrTriangle
         """
-        incrtri = pd.DataFrame(self).diff(axis=1)
-        incrtri.iloc[:, 0] = self.iloc[:, 0]
+        # Amounts following a gap are relative to the last preceding amount.
+        cumtri = pd.DataFrame(self)
+        incrtri = cumtri - cumtri.ffill(axis=1).shift(periods=1, axis=1).fillna(0)
         incrtri = incrtri.reset_index(drop=False).rename({"index": "origin"}, axis=1)
         df = pd.melt(incrtri, id_vars=["origin"], var_name="dev", value_name="value")
         df = df[~np.isnan(df["value"])].astype({"origin": int, "dev": int, "value": float})
-- 
2.43.0


From bc9699959bf2c4e0f4c695fcf723a5b4878b1b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:42 +0000
Subject: [PATCH 30/46] fix: totri rejects an invalid data_format for tabular
 data too

---
 trikit/triangle.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 0c2fd41..078ff46 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -1386,8 +1386,12 @@ def totri(data, tri_type="cum", data_format="incr", data_shape="tabular",
             df = df.groupby([origin, dev], as_index=False).sum()
             incr = df.groupby([origin])[value].diff(periods=1)
             df[value] = np.where(np.isnan(incr), df[value], incr)
-        else:
+
+        elif data_format.lower().strip().startswith("i"):
             df = data
+
+        else:
+            raise NameError("Invalid data_format argument: `{}`.".format(data_format))
     else:
         raise NameError("Invalid data_shape argument: `{}`.".format(data_shape))
 
-- 
2.43.0


From ddb9f498fbbb2359b1063bb9f341352e5a10e96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:51 +0000
Subject: [PATCH 31/46] fix: bootstrap plot applies the style overrides it
 documents

---
 trikit/estimators/bootstrap.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index ffa73a3..0b921f1 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -1221,6 +1221,10 @@ class BootstrapChainLadderResult(BaseRangeEstimatorResult):
                 else:
                     warnings.warn("hue_kws overrides not correct length - Ignoring.")
 
+            # Style overrides in kwargs apply to forecasts and actuals.
+            for kk, vv in kwargs.items():
+                huekwargs[kk] = [vv, vv] + list(huekwargs.get(kk, [vv] * 4)[2:])
+
             grid = sns.FacetGrid(
                 data, col="origin", hue="rectype", hue_kws=huekwargs,
                 col_wrap=col_wrap, margin_titles=False, despine=True,
-- 
2.43.0


From 5c1ac21444bbae987425324b156befcffa539068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:39 +0000
Subject: [PATCH 32/46] fix: triangles keep their attributes when pickled

---
 trikit/triangle.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 078ff46..ffd25f4 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -38,6 +38,13 @@ class _BaseTriangle(pd.DataFrame):
     value: str
         The fieldname in ``data`` representing loss amounts.
     """
+    # Attributes retained along with the cells when a triangle is pickled.
+    _metadata = [
+        "origin", "dev", "value", "_latest_by_origin", "_latest_by_devp",
+        "_nbr_cells", "_maturity", "_triind", "_devp", "_latest", "_origins",
+        "_rlvi", "_clvi", "_dof"
+        ]
+
     def __init__(self, data, origin=None, dev=None, value=None):
 
         self._validate(data, origin=origin, dev=dev, value=value)
@@ -462,6 +469,10 @@ class _BaseCumTriangle(_BaseTriangle):
     value: str
         The fieldname in ``data`` representing incremental loss amounts.
     """
+    _metadata = _BaseTriangle._metadata + [
+        "_a2a_assignment", "_ranked_a2a", "_a2a_lvi", "_weights", "_a2aind", "_a2a"
+        ]
+
     def __init__(self, data, origin="origin", dev="dev", value="value"):
 
         # Aggregate to one record per cell ordered by development period, since
-- 
2.43.0


From d7b5b824eeacd116e8c784184bda43a66ffe869d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:17 +0000
Subject: [PATCH 33/46] fix: average link ratios by position, whatever the type
 of the origin labels

---
 trikit/triangle.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index ffd25f4..e293267 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -845,8 +845,8 @@ class _BaseCumTriangle(_BaseTriangle):
                     t_ic_1, t_ic_2 = t_ic_1.where(t_ic_incl), t_ic_2.where(t_ic_incl)
 
                     # Divide sum of t_ic_2 by t_ic_1.
-                    sum_ic_2 = t_ic_2[first_cell_indx:final_cell_indx].sum()
-                    sum_ic_1 = t_ic_1[first_cell_indx:final_cell_indx].sum()
+                    sum_ic_2 = t_ic_2.iloc[first_cell_indx:final_cell_indx].sum()
+                    sum_ic_1 = t_ic_1.iloc[first_cell_indx:final_cell_indx].sum()
 
                     try:
                         iteravg = (sum_ic_2 / sum_ic_1)
@@ -870,7 +870,7 @@ class _BaseCumTriangle(_BaseTriangle):
                         final_cell_indx = len(itercol)
                         first_cell_indx = 0 if duration == 0 else (final_cell_indx - duration)
                     try:
-                        link_ratios = itercol[first_cell_indx:final_cell_indx]
+                        link_ratios = itercol.iloc[first_cell_indx:final_cell_indx]
                         iteravg = iterfunc(link_ratios[link_ratios > 0])
                     except ZeroDivisionError:
                         iteravg = np.NaN
-- 
2.43.0


From 4afb3681fdbe9e0e74864b42d7063ab4788d7a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:10 +0000
Subject: [PATCH 34/46] fix: accept amounts of any numeric type, including
 nullable and object columns

---
 trikit/triangle.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index e293267..70c677e 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -54,7 +54,7 @@ class _BaseTriangle(pd.DataFrame):
 
         # The adjustment made in _neg_handler applies to triangle cells, so
         # records sharing a cell are aggregated first.
-        data2 = data[[origin_, dev_, value_]].dropna(subset=[value_])
+        data2 = data[[origin_, dev_, value_]].dropna(subset=[value_]).astype({value_: float})
         data2 = data2.groupby([origin_, dev_], as_index=False).sum()
         data2 = self._neg_handler(data2, dev_, value_)
         data2 = data2.sort_values(by=[origin_, dev_])
@@ -477,7 +477,7 @@ class _BaseCumTriangle(_BaseTriangle):
 
         # Aggregate to one record per cell ordered by development period, since
         # the cumulative sum is taken over records as they appear.
-        data = data[[origin, dev, value]].dropna(subset=[value])
+        data = data[[origin, dev, value]].dropna(subset=[value]).astype({value: float})
         data = data.groupby([origin, dev], as_index=False).sum()
         data[value] = data.groupby([origin])[value].cumsum()
         super().__init__(data=data, origin=origin, dev=dev, value=value)
@@ -1393,7 +1393,7 @@ def totri(data, tri_type="cum", data_format="incr", data_shape="tabular",
         if data_format.lower().strip().startswith("c"):
             # Differences are taken between successive cells of an origin, so
             # aggregate by cell (which also orders them) beforehand.
-            df = data[[origin, dev, value]].dropna(subset=[value])
+            df = data[[origin, dev, value]].dropna(subset=[value]).astype({value: float})
             df = df.groupby([origin, dev], as_index=False).sum()
             incr = df.groupby([origin])[value].diff(periods=1)
             df[value] = np.where(np.isnan(incr), df[value], incr)
-- 
2.43.0


From 5394120f55ab6c07f3ec2f3e63755eefe5b6f15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:47 +0000
Subject: [PATCH 35/46] fix: accept data whose index bears the name of a field

---
 trikit/triangle.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 70c677e..a17e7bc 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -54,7 +54,8 @@ class _BaseTriangle(pd.DataFrame):
 
         # The adjustment made in _neg_handler applies to triangle cells, so
         # records sharing a cell are aggregated first.
-        data2 = data[[origin_, dev_, value_]].dropna(subset=[value_]).astype({value_: float})
+        data2 = data[[origin_, dev_, value_]].reset_index(drop=True)
+        data2 = data2.dropna(subset=[value_]).astype({value_: float})
         data2 = data2.groupby([origin_, dev_], as_index=False).sum()
         data2 = self._neg_handler(data2, dev_, value_)
         data2 = data2.sort_values(by=[origin_, dev_])
@@ -477,7 +478,8 @@ class _BaseCumTriangle(_BaseTriangle):
 
         # Aggregate to one record per cell ordered by development period, since
         # the cumulative sum is taken over records as they appear.
-        data = data[[origin, dev, value]].dropna(subset=[value]).astype({value: float})
+        data = data[[origin, dev, value]].reset_index(drop=True)
+        data = data.dropna(subset=[value]).astype({value: float})
         data = data.groupby([origin, dev], as_index=False).sum()
         data[value] = data.groupby([origin])[value].cumsum()
         super().__init__(data=data, origin=origin, dev=dev, value=value)
@@ -1393,7 +1395,8 @@ def totri(data, tri_type="cum", data_format="incr", data_shape="tabular",
         if data_format.lower().strip().startswith("c"):
             # Differences are taken between successive cells of an origin, so
             # aggregate by cell (which also orders them) beforehand.
-            df = data[[origin, dev, value]].dropna(subset=[value]).astype({value: float})
+            df = data[[origin, dev, value]].reset_index(drop=True)
+            df = df.dropna(subset=[value]).astype({value: float})
             df = df.groupby([origin, dev], as_index=False).sum()
             incr = df.groupby([origin])[value].diff(periods=1)
             df[value] = np.where(np.isnan(incr), df[value], incr)
-- 
2.43.0


From e62f23b63856f840c0db877b56b5ad3ed3f79cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:50 +0000
Subject: [PATCH 36/46] fix: a2a_avgs left link ratios of zero or below out of
 the averages

---
 trikit/triangle.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index a17e7bc..b96eb01 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -511,8 +511,11 @@ class _BaseCumTriangle(_BaseTriangle):
         -------
         float
         """
+        # The geometric average is 0 if any element is 0, and undefined (NaN) if any
+        # element is negative.
         arr = np.asarray(vals, dtype=float)
-        return(np.NaN if arr.size == 0 else stats.gmean(arr))
+        with np.errstate(divide="ignore", invalid="ignore"):
+            return(np.NaN if arr.size == 0 else stats.gmean(arr))
 
 
     @staticmethod
@@ -820,7 +823,7 @@ class _BaseCumTriangle(_BaseTriangle):
             ]
 
         _a2a_avgs = pd.DataFrame(index=indxstrs, columns=self.a2a.columns)
-        a2a_adj = self.a2a * self.a2aind
+        a2a_adj = self.a2a
 
         for a in enumerate(ldf_avg_lst):
             duration, avgtype, indxpos = a[1][1], a[1][0], a[0]
@@ -873,7 +876,8 @@ class _BaseCumTriangle(_BaseTriangle):
                         first_cell_indx = 0 if duration == 0 else (final_cell_indx - duration)
                     try:
                         link_ratios = itercol.iloc[first_cell_indx:final_cell_indx]
-                        iteravg = iterfunc(link_ratios[link_ratios > 0])
+                        iterincl = self.a2aind.iloc[first_cell_indx:final_cell_indx, col] != 0
+                        iteravg = iterfunc(link_ratios[iterincl])
                     except ZeroDivisionError:
                         iteravg = np.NaN
                 _a2a_avgs.loc[indxstr, colstr] = iteravg
-- 
2.43.0


From e2359006ceb74dc0c1e70dcae28609776cb23ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:57 +0000
Subject: [PATCH 37/46] fix: a2a_avgs raised IndexError when every origin
 reaches a development period

---
 trikit/triangle.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index b96eb01..269e371 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -836,9 +836,7 @@ class _BaseCumTriangle(_BaseTriangle):
 
                     t_ic_1, t_ic_2 = self.iloc[:, col], self.iloc[:, (col + 1)]
                     # Find first NaN value in t_ic_2.
-                    first_nan_year = t_ic_2.index[t_ic_2.count():][0]
-                    first_nan_indx = t_ic_2.index.searchsorted(first_nan_year)
-                    final_cell_indx = first_nan_indx
+                    final_cell_indx = t_ic_2.count()
                     if duration == 0:
                         first_cell_indx = 0
                     else:
-- 
2.43.0


From 9ae26f99c89521bb671c2d42b09e027b4806e296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:57 +0000
Subject: [PATCH 38/46] fix: project each origin from its own maturity; refuse
 mack_cl where its recursion does not apply

base_cl paired latest amounts with reversed cumulative factors, which is only
right for a complete run-off triangle: other histories raised a broadcast
error, or were silently given another origin's factor.
---
 trikit/estimators/base.py | 2 +-
 trikit/estimators/mack.py | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/trikit/estimators/base.py b/trikit/estimators/base.py
index 67be9d7..e5c5bcb 100644
--- a/trikit/estimators/base.py
+++ b/trikit/estimators/base.py
@@ -220,7 +220,7 @@ class BaseChainLadder:
         pd.Series
         """
         ultimates = pd.Series(
-            data=self.tri.latest_by_origin.values * cldfs.values[::-1],
+            data=self.tri.latest_by_origin.values * cldfs[self.tri.maturity].values,
             index=self.tri.index, name="ultimate"
             )
         return(ultimates.astype(float).sort_index())
diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index 75efcec..c07c52c 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -112,6 +112,9 @@ class MackChainLadder(BaseRangeEstimator):
         -------
         MackChainLadderResult
         """
+        if list(self.tri.rlvi["col_offset"])[::-1] != list(range(self.tri.devp.size)):
+            raise ValueError("mack_cl requires a run-off triangle with a complete latest diagonal.")
+
         ldfs = self._ldfs(alpha=alpha, tail=1.0)
         cldfs = self._cldfs(ldfs=ldfs)
         maturity = self.tri.maturity.astype(str)
-- 
2.43.0


From 78c2a8d0101321909dd383e71785f36a43ac667f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:57 +0000
Subject: [PATCH 39/46] fix: boot_cl mistook developed origins and dropped
 wrong cells for histories that are not square

---
 trikit/estimators/bootstrap.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index 0b921f1..1ed0cd1 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -180,7 +180,8 @@ class BootstrapChainLadder(BaseRangeEstimator):
 
         dfreserves = self._bs_reserves(dfprocerror=dfprocerror)
         ultimates = dfreserves.groupby(["origin"])["ultimate"].mean()
-        ultimates[latest.index.min()] = latest[latest.index.min()]
+        developed = latest.index[maturity == str(self.tri.devp.max())]
+        ultimates[developed] = latest[developed]
         reserves = pd.Series(ultimates - latest, name="reserve")
         std_error = self._bs_std_error(dfreserves)
         cv = pd.Series(std_error / reserves, name="cv")
@@ -529,17 +530,14 @@ class BootstrapChainLadder(BaseRangeEstimator):
         -------
         pd.DataFrame
         """
-        keepcols = ["sim", "origin", "dev", "samp_cum", "last_origin"]
-        new_col_names = {"index": "dev", "origin": "last_origin", "row_offset": "origin_offset"}
-        dflvi = self.tri.clvi.reset_index(drop=False).rename(new_col_names, axis=1)
-        dfinit = dfsamples.merge(dflvi, how="left", on=["dev"])
+        keepcols = ["sim", "origin", "dev", "samp_cum", "l_act_dev"]
+        dfinit = dfsamples.merge(self.dfrlvi, how="left", on=["origin"])
         dfinit = dfinit[keepcols].sort_values(by=["sim", "dev", "origin"])
         df = dfinit[~np.isnan(dfinit["samp_cum"])].reset_index(drop=True)
-        df["_aggdev2"] = np.where(df["origin"].values == df["last_origin"].values, 0, df["samp_cum"].values)
+        df["_aggdev2"] = np.where(df["dev"].values == df["l_act_dev"].values, 0, df["samp_cum"].values)
         df2 = df.groupby(["sim", "dev"], as_index=False)[["samp_cum", "_aggdev2"]].sum().rename(
             {"samp_cum": "_aggdev1"}, axis=1)
-        df2["_aggdev2"] = df2["_aggdev2"].shift(periods=1)
-        df2["dev"] = df2["dev"].shift(periods=1)
+        df2[["dev", "_aggdev2"]] = df2.groupby("sim")[["dev", "_aggdev2"]].shift(periods=1)
         dfldfs = df2[df2["_aggdev2"] != 0].dropna(how="any")
         dfldfs["dev"] = dfldfs["dev"].astype(int)
         dfldfs["ldf"] = dfldfs["_aggdev1"] / dfldfs["_aggdev2"]
@@ -570,12 +568,12 @@ class BootstrapChainLadder(BaseRangeEstimator):
         pd.DataFrame
         """
         dfcombined = self._get_dfcombined(dfsamples, dfldfs)
-        min_origin_year = dfcombined["origin"].min()
+        max_devp = dfcombined["dev"].max()
         dfcombined["_l_init_indx"] = np.where(
             dfcombined["dev"].values >= dfcombined["l_act_dev"].values,
             dfcombined.index.values, -1
             )
-        dfacts = dfcombined[(dfcombined["origin"].values == min_origin_year) |
+        dfacts = dfcombined[(dfcombined["l_act_dev"].values == max_devp) |
                             (dfcombined["_l_init_indx"].values == -1)]
 
         dffcst = dfcombined[~dfcombined.index.isin(dfacts.index)].sort_values(
-- 
2.43.0


From 676aab1545fa4d24cf1aecbc01ad6fd368eaabe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:59 +0000
Subject: [PATCH 40/46] fix: undefined link ratios (0 / 0) hid later origins
 from averages and dropped their period

---
 trikit/triangle.py | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 269e371..7500505 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -608,7 +608,9 @@ class _BaseCumTriangle(_BaseTriangle):
         """
         if self._a2a is None:
             self._a2a = self.shift(periods=-1, axis=1) / self
-            self._a2a = self._a2a.dropna(axis=1, how="all").dropna(axis=0, how="all")
+            # Only the last development period is without successor. Link ratios of other
+            # periods may be undefined (0 / 0), but are retained.
+            self._a2a = self._a2a.iloc[:, :-1].dropna(axis=0, how="all")
         return(self._a2a.sort_index())
 
 
@@ -732,7 +734,7 @@ class _BaseCumTriangle(_BaseTriangle):
         # Bind reference to last valid index by column for self.tri.a2a.
         if self._a2a_lvi is None:
             self._a2a_lvi = pd.DataFrame({
-                "origin": self.a2a.apply(lambda v: v.last_valid_index(), axis=0).values
+                "origin": self.iloc[:, 1:].apply(lambda v: v.last_valid_index(), axis=0).values
             }, index=self.a2a.columns
             )
             self._a2a_lvi["row_offset"] = self._a2a_lvi["origin"].map(lambda v: self.index.get_loc(v))
@@ -857,21 +859,15 @@ class _BaseCumTriangle(_BaseTriangle):
                         iteravg = np.NaN
 
                 else:
-                    # Find index of first row with NaN.
-                    if any(itercol.map(lambda x: np.isnan(x))):
-                        first_nan_year = itercol.index[itercol.apply(lambda x: np.isnan(x))][0]
-                        first_nan_indx = itercol.index.searchsorted(first_nan_year)
-                        final_cell_indx = first_nan_indx
-                        if duration == 0:
-                            first_cell_indx = 0
-                        else:
-                            first_cell_indx = (final_cell_indx - duration) if \
-                                              (final_cell_indx - duration) >= 0 else 0
-
+                    # Link ratios not yet observed are disregarded. Those undefined (0 / 0)
+                    # may precede observed ones, and are not included (see a2aind).
+                    final_cell_indx = self.iloc[:, (col + 1)].count()
+                    if duration == 0:
+                        first_cell_indx = 0
                     else:
-                        # itercol has 0 NaN's.
-                        final_cell_indx = len(itercol)
-                        first_cell_indx = 0 if duration == 0 else (final_cell_indx - duration)
+                        first_cell_indx = (final_cell_indx - duration) if \
+                                          (final_cell_indx - duration) >= 0 else 0
+
                     try:
                         link_ratios = itercol.iloc[first_cell_indx:final_cell_indx]
                         iterincl = self.a2aind.iloc[first_cell_indx:final_cell_indx, col] != 0
-- 
2.43.0


From caf04a65bc26303d27cd133f77ec07393d5aaaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:59 +0000
Subject: [PATCH 41/46] fix: boot_cl reported reserves where development
 factors are undefined

---
 trikit/estimators/bootstrap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index 1ed0cd1..b5c946f 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -154,6 +154,8 @@ class BootstrapChainLadder(BaseRangeEstimator):
         BootstrapChainLadderResult
         """
         ldfs = self._ldfs(sel="all-weighted")
+        if ldfs.isnull().any():
+            raise ValueError("boot_cl requires defined development factors for all periods.")
         cldfs = self._cldfs(ldfs=ldfs)
         maturity = self.tri.maturity.astype(str)
         latest = self.tri.latest_by_origin
-- 
2.43.0


From 20453d552dca8c32fa89fa169a1fb0cae553dbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:18 +0000
Subject: [PATCH 42/46] fix: totals left out origins whose reserves are
 undefined

---
 trikit/estimators/base.py | 2 +-
 trikit/estimators/mack.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/trikit/estimators/base.py b/trikit/estimators/base.py
index e5c5bcb..a6372d9 100644
--- a/trikit/estimators/base.py
+++ b/trikit/estimators/base.py
@@ -144,7 +144,7 @@ class BaseChainLadder:
             (dflatest, ultimates.to_frame(), reserves.to_frame()), dfsumm
             )
 
-        dfsumm.loc["total"] = dfsumm.sum()
+        dfsumm.loc["total"] = dfsumm.sum(skipna=False)
         dfsumm.loc["total", "maturity"] = ""
         dfsumm.loc["total", ["cldf", "emergence"]] = np.NaN
 
diff --git a/trikit/estimators/mack.py b/trikit/estimators/mack.py
index c07c52c..c8b769e 100644
--- a/trikit/estimators/mack.py
+++ b/trikit/estimators/mack.py
@@ -152,7 +152,7 @@ class MackChainLadder(BaseRangeEstimator):
             )
 
         # Add total index and set to NaN fields that shouldn't be aggregated.
-        dfsumm.loc["total"] = dfsumm.sum()
+        dfsumm.loc["total"] = dfsumm.sum(skipna=False)
         dfsumm.loc["total", "maturity"] = ""
         dfsumm.loc["total", ["cldf", "emergence"]] = np.NaN
 
-- 
2.43.0


From 4d60798a148a75ca31701455b9a7f502bac96b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:47 +0000
Subject: [PATCH 43/46] fix: the actual/forecast indicator missed first-period
 cells that totri completed

---
 trikit/triangle.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 7500505..2e00e9c 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -1416,13 +1416,15 @@ def totri(data, tri_type="cum", data_format="incr", data_shape="tabular",
     elif tri_type.lower().startswith("c"):
         tri = CumTriangle(data=df, origin=origin, dev=dev, value=value)
 
-        # Replace missing actuals.
-        for origin_ in tri.index:
-            origin_indx = tri.index.get_loc(origin_)
+        # Replace missing actuals. The first development period is completed
+        # for all origins beforehand, since triind is derived from its cells.
+        for origin_indx in range(tri.index.size):
             origin_init_val = tri.iat[origin_indx, 0]
             if np.isnan(origin_init_val):
                 tri.iat[origin_indx, 0] = 1.
 
+        for origin_ in tri.index:
+            origin_indx = tri.index.get_loc(origin_)
             for devp_indx, devp_ in enumerate(tri.columns[1:], start=1):
                 triind_val = tri.triind.iat[origin_indx, devp_indx]
                 if triind_val == 0:
-- 
2.43.0


From 6be49311317549d5b4b9c572bec4f842c0c16e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:35 +0000
Subject: [PATCH 44/46] fix: a2aind accepted link ratios that do not exist and
 values other than 0 and 1

---
 trikit/triangle.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trikit/triangle.py b/trikit/triangle.py
index 2e00e9c..7e66590 100644
--- a/trikit/triangle.py
+++ b/trikit/triangle.py
@@ -719,6 +719,10 @@ class _BaseCumTriangle(_BaseTriangle):
             1989  1  0  0  0  0  0  0  0  0
         """
         indx, column, value = update_spec
+        if indx not in self.a2aind.index or column not in self.a2aind.columns:
+            raise KeyError("There is no link ratio at `({}, {})`.".format(indx, column))
+        if value not in (0, 1):
+            raise ValueError("value must be either 0 or 1, not `{}`.".format(value))
         self._a2aind.at[indx, column] = value
 
 
-- 
2.43.0


From 274469091492c1add4a0f71af6d46c3d91c8096c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:42 +0000
Subject: [PATCH 45/46] fix: boot_cl works when pandas copies on write

---
 trikit/estimators/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index b5c946f..cfb4f76 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -707,7 +707,7 @@ class BootstrapChainLadder(BaseRangeEstimator):
             np.isnan(dfreserves["latest"].values),
             dfreserves["ultimate"].values, dfreserves["latest"].values
             )
-        dfreserves["reserve"] = np.nan_to_num(dfreserves["reserve"].values, 0)
+        dfreserves["reserve"] = np.nan_to_num(dfreserves["reserve"].values, nan=0)
         return(dfreserves.sort_values(by=["origin", "sim"]).reset_index(drop=True))
 
 
-- 
2.43.0


From 2b7e2a790110e3b559a0be6868a910093abfd485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:42 +0000
Subject: [PATCH 46/46] fix: bootstrap plot labels its quantile bounds on
 copies

---
 trikit/estimators/bootstrap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trikit/estimators/bootstrap.py b/trikit/estimators/bootstrap.py
index cfb4f76..22af09f 100644
--- a/trikit/estimators/bootstrap.py
+++ b/trikit/estimators/bootstrap.py
@@ -1026,8 +1026,8 @@ class BootstrapChainLadderResult(BaseRangeEstimatorResult):
 
         data = data.drop(["_ff", "_minf"], axis=1).reset_index(drop=True)
         dfv = data[["origin", "dev", "rectype", "loss"]]
-        dfl = data[["origin", "dev", "rectype", qtlhdrs[0]]]
-        dfu = data[["origin", "dev", "rectype", qtlhdrs[-1]]]
+        dfl = data[["origin", "dev", "rectype", qtlhdrs[0]]].copy()
+        dfu = data[["origin", "dev", "rectype", qtlhdrs[-1]]].copy()
         dfl["rectype"] = qtlhdrs[0]
         dfl = dfl.rename({qtlhdrs[0]: "loss"}, axis=1)
         dfu["rectype"] = qtlhdrs[-1]
-- 
2.43.0

