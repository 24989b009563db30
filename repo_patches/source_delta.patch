From 948acfb8f309584c381172ee93e958595d813fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:46 +0000
Subject: [PATCH 01/50] fix: ignore zero-weight and infinite values when
 computing the empirical CDF

Values whose total weight is zero were dropped from the CDF but kept in the
list of unique values. The two arrays then had different lengths. Discrete
columns raised an error and continuous columns got shifted bin boundaries.
Infinite values were kept as well, although they are documented as ignored.
---
 cyclic_boosting/binning/ecdf_transformer.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cyclic_boosting/binning/ecdf_transformer.py b/cyclic_boosting/binning/ecdf_transformer.py
index 723d05e..bcdad61 100644
--- a/cyclic_boosting/binning/ecdf_transformer.py
+++ b/cyclic_boosting/binning/ecdf_transformer.py
@@ -557,14 +557,15 @@ def calculate_cdf_from_weighted_data(z, w):
     if z.shape[0] != w.shape[0]:
         raise ValueError("input vectors must be of same shape")
 
-    n_nan = np.count_nonzero(np.isnan(z))
-    z_unique = np.unique(z[~np.isnan(z)])
+    finite = np.isfinite(z)
+    n_nan = np.count_nonzero(~finite)
 
-    wsum = np.nansum(w[~np.isnan(z)])
+    wsum = np.nansum(w[finite])
 
     # Accumulate the weights for the unique values.
-    uniques = pd.DataFrame({"z": z, "w": w}).groupby(["z"]).agg({"w": "sum"}).reset_index()
+    uniques = pd.DataFrame({"z": z[finite], "w": w[finite]}).groupby(["z"]).agg({"w": "sum"}).reset_index()
     uniques = uniques.loc[uniques["w"] != 0]
+    z_unique = uniques["z"].values
 
     cdf = np.nancumsum(uniques["w"]) / wsum
 
-- 
2.43.0


From dbbb424113d545c02aad93f96f1b5eacad84c3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:46 +0000
Subject: [PATCH 02/50] fix: do not overwrite the input of the ECDF transform

A float array or frame passed to the transform was modified in place.
The index of a frame was replaced by a default one.
---
 cyclic_boosting/binning/ecdf_transformer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cyclic_boosting/binning/ecdf_transformer.py b/cyclic_boosting/binning/ecdf_transformer.py
index bcdad61..6170ef2 100644
--- a/cyclic_boosting/binning/ecdf_transformer.py
+++ b/cyclic_boosting/binning/ecdf_transformer.py
@@ -272,7 +272,7 @@ class ECdfTransformer(sklearnb.BaseEstimator, sklearnb.TransformerMixin):
         if check_frame_empty(X):
             return X
 
-        Xnp = np.asarray(X, dtype=float)
+        Xnp = np.array(X, dtype=float)
         Xt = Xnp
 
         for col, epsilon, bins_and_cdfs in self.bins_and_cdfs_:
@@ -305,7 +305,7 @@ class ECdfTransformer(sklearnb.BaseEstimator, sklearnb.TransformerMixin):
                 Xnp[:, j] = np.nan
 
         if isinstance(X, pd.DataFrame):
-            return pd.DataFrame(Xt, columns=X.columns)
+            return pd.DataFrame(Xt, columns=X.columns, index=X.index)
         else:
             return Xt
 
-- 
2.43.0


From db17a77b1790e398a23916f7d5d078c0f42c31a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:46 +0000
Subject: [PATCH 03/50] fix: hold all bin numbers when binning small or
 unsigned integer arrays

Bin numbers were written into a copy of the input array with the same type.
The missing bin -1 wrapped around for unsigned integers. Bin numbers above 127
wrapped around for 8-bit integers.
---
 cyclic_boosting/binning/bin_number_transformer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cyclic_boosting/binning/bin_number_transformer.py b/cyclic_boosting/binning/bin_number_transformer.py
index f2bd6e0..d58dacf 100644
--- a/cyclic_boosting/binning/bin_number_transformer.py
+++ b/cyclic_boosting/binning/bin_number_transformer.py
@@ -183,6 +183,9 @@ class BinNumberTransformer(ECdfTransformer):
 
         if not self.inplace:
             X = X_orig.copy()
+            if isinstance(X, np.ndarray) and not np.issubdtype(X.dtype, np.floating):
+                # small or unsigned types cannot hold all bin numbers
+                X = X.astype(np.int64)
         else:
             X = X_orig
 
-- 
2.43.0


From 980cf75e96e22521b694f35cd45eed949576ff2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:46 +0000
Subject: [PATCH 04/50] fix: forget feature importances of an earlier training

Importances of a previous fit stayed in the dictionary when an estimator was
trained again. They diluted the normalised importances of the new model.
---
 cyclic_boosting/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index 98d11f1..1f176ca 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -968,6 +968,7 @@ class CyclicBoostingBase(
             return [(feature.feature_id, feature.smoother) for feature in self.features]
 
     def set_feature_importances(self) -> None:
+        self.feature_importances = {}
         for feature in self.features:
             feature.prepare_feature()
             feature.set_feature_bin_deviations_from_neutral(self.neutral_factor_link)
-- 
2.43.0


From c563905afc047e3fcbff4163cff3b8070dd90a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:46 +0000
Subject: [PATCH 05/50] fix: support integer column labels in importances and
 contributions

Models trained on arrays use column indices as feature names. Joining them as
strings raised a TypeError. Importances of a standard and an external feature
on the same column also shared one name, so one of them was lost.
---
 cyclic_boosting/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index 1f176ca..dc680db 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -983,7 +983,8 @@ class CyclicBoostingBase(
         else:
             normalized_values = get_normalized_values(self.feature_importances.values())
             norm_feature_importances = {
-                "_".join(feature.feature_id.feature_group): normalized_values[i]
+                "_".join(map(str, feature.feature_group))
+                + ("" if feature.feature_type is None else "_{}".format(feature.feature_type)): normalized_values[i]
                 for i, feature in enumerate(self.feature_importances.keys())
             }
             return norm_feature_importances
@@ -1011,7 +1012,7 @@ class CyclicBoostingBase(
         contribution = {}
         for feature in self.features:
             ft = "" if feature.feature_type is None else "_{}".format(feature.feature_type)
-            fg = " ".join(feature.feature_group)
+            fg = " ".join(map(str, feature.feature_group))
             contribution[fg + ft] = self.unlink_func(self._pred_feature(X, feature, is_fit=False))
         return contribution
 
-- 
2.43.0


From b79e4f015e1b45926f2301cf8d58be6a4e1c46a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:46 +0000
Subject: [PATCH 06/50] fix: support symmetric quantile triplets in J-QPD
 distributions

A triplet that is symmetric in the transformed space led to a division of zero
by zero. All quantiles and probabilities were then not a number. Rounding could
cause the same for nearly symmetric triplets.
---
 cyclic_boosting/quantile_matching.py | 40 +++++++++++++---------------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/cyclic_boosting/quantile_matching.py b/cyclic_boosting/quantile_matching.py
index 5c00597..79a496c 100644
--- a/cyclic_boosting/quantile_matching.py
+++ b/cyclic_boosting/quantile_matching.py
@@ -66,19 +66,16 @@ class J_QPD_S:
         self.n = np.where(self.L + self.H - 2 * self.B > 0, 1, -1)
         self.theta = np.where(self.L + self.H - 2 * self.B > 0, qv_low - l, qv_high - l)
 
-        self.n = np.where(self.L + self.H - 2 * self.B == 0, 0, self.n)
-        self.theta = np.where(self.L + self.H - 2 * self.B == 0, qv_median - l, self.theta)
-
-        self.delta = (
-            1.0
-            / self.c
-            * np.sinh(
-                np.arccosh(
-                    (self.H - self.L)
-                    / (2 * np.where((self.B - self.L) < (self.H - self.B), (self.B - self.L), (self.H - self.B)))
-                )
-            )
+        ratio = (self.H - self.L) / (
+            2 * np.where((self.B - self.L) < (self.H - self.B), (self.B - self.L), (self.H - self.B))
         )
+        symmetric = ratio <= 1
+
+        self.n = np.where(symmetric, 0, self.n)
+        self.theta = np.where(symmetric, qv_median - l, self.theta)
+
+        # the value of delta is arbitrary in the symmetric (log-normal) case
+        self.delta = np.where(symmetric, 1.0, 1.0 / self.c * np.sinh(np.arccosh(np.maximum(ratio, 1.0))))
 
         self.kappa = (
             1.0
@@ -226,17 +223,16 @@ class J_QPD_B:
         self.n = np.where(self.L + self.H - 2 * self.B > 0, 1, -1)
         self.xi = np.where(self.L + self.H - 2 * self.B > 0, self.L, self.H)
 
-        self.n = np.where(self.L + self.H - 2 * self.B == 0, 0, self.n)
-        self.xi = np.where(self.L + self.H - 2 * self.B == 0, self.B, self.xi)
-
-        self.delta = (
-            1.0
-            / self.c
-            * np.arccosh(
-                (self.H - self.L)
-                / (2 * np.where((self.B - self.L) < (self.H - self.B), self.B - self.L, self.H - self.B))
-            )
+        ratio = (self.H - self.L) / (
+            2 * np.where((self.B - self.L) < (self.H - self.B), self.B - self.L, self.H - self.B)
         )
+        symmetric = ratio <= 1
+
+        self.n = np.where(symmetric, 0, self.n)
+        self.xi = np.where(symmetric, self.B, self.xi)
+
+        # the symmetric case is the limit of a vanishing delta
+        self.delta = np.where(symmetric, 1e-6, 1.0 / self.c * np.arccosh(np.maximum(ratio, 1.0)))
 
         self.kappa = (self.H - self.L) / np.sinh(2 * self.delta * self.c)
 
-- 
2.43.0


From d0dcd6fe959f2edb0c123dbc601aaf129137eef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:46 +0000
Subject: [PATCH 07/50] fix: let symmetric extended J-QPDs reproduce their
 quantiles

For a symmetric triplet the quantile function missed the given low and high
quantiles, because the scale did not account for the hyperbolic sine. Nearly
symmetric triplets could even give no number at all due to rounding.
---
 cyclic_boosting/quantile_matching.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/cyclic_boosting/quantile_matching.py b/cyclic_boosting/quantile_matching.py
index 79a496c..335de7d 100644
--- a/cyclic_boosting/quantile_matching.py
+++ b/cyclic_boosting/quantile_matching.py
@@ -357,17 +357,20 @@ class BaseDist:
 def unconstrained_calc(L: float, B: float, H: float) -> Tuple[float, float, float, float]:
     gamma = -np.sign(L + H - 2 * B)
 
-    if gamma == 0:
+    if gamma < 0:
+        xi = L
+        theta = (B - L) / (H - L)
+    else:
+        xi = H
+        theta = (H - B) / (H - L)
+
+    if gamma == 0 or 2.0 * theta >= 1:
+        # the symmetric case is the limit of a large delta
+        gamma = 0.0
         xi = B
-        kappa = H - B
-        delta = 1
+        delta = 1e6
+        kappa = (H - B) / sinh(1.0 / delta)
     else:
-        if gamma < 0:
-            xi = L
-            theta = (B - L) / (H - L)
-        else:
-            xi = H
-            theta = (H - B) / (H - L)
         delta = 1.0 / arccosh(1 / (2.0 * theta))
         kappa = (H - L) / sinh(2.0 / delta)
 
-- 
2.43.0


From 5b594a8eda9c1a5796d862aec733681a7fa4f7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:46 +0000
Subject: [PATCH 08/50] fix: train the lower quantile of the chain on targets
 below the median

The comparison was done on the ratio of target and predicted median. For a
negative median, which is possible with a negative lower bound, this selected
the targets above the median.
---
 cyclic_boosting/quantile_matching.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/cyclic_boosting/quantile_matching.py b/cyclic_boosting/quantile_matching.py
index 335de7d..26d8495 100644
--- a/cyclic_boosting/quantile_matching.py
+++ b/cyclic_boosting/quantile_matching.py
@@ -785,10 +785,8 @@ class QPD_RegressorChain(BaseEstimator):
             pred_median = back_transform_in_bounds(z, self.l, self.u)
 
         # lower quantile model
-        y_trans = y / pred_median
-        mask = y_trans < 1
-        y_trans = y_trans[mask]
-        y_trans = transform_from_bounds(y_trans, self.l / pred_median[mask], 1)
+        mask = y < pred_median
+        y_trans = transform_from_bounds(y[mask], self.l, pred_median[mask])
         self.est_lowq.fit(X[mask], y_trans)
         z = self.est_lowq.predict(X)
         pred_lowq = back_transform_in_bounds(z, self.l, pred_median)
-- 
2.43.0


From a045fe74e6b3b199e63e17b68be1072ee0068337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:46 +0000
Subject: [PATCH 09/50] fix: apply the row selection to the upper bound in the
 bounded quantile chain

The targets of the upper quantile model are restricted to rows above the
median, but their upper bounds were not. Training the bounded mode failed with
a shape mismatch.
---
 cyclic_boosting/quantile_matching.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/quantile_matching.py b/cyclic_boosting/quantile_matching.py
index 26d8495..692056f 100644
--- a/cyclic_boosting/quantile_matching.py
+++ b/cyclic_boosting/quantile_matching.py
@@ -798,7 +798,7 @@ class QPD_RegressorChain(BaseEstimator):
         if self.bound == "S":
             y_trans = transform_from_semibound_lower(y_trans, 0)
         elif self.bound == "B":
-            y_trans = transform_from_bounds(y_trans, 0, (self.u - pred_median) / (pred_median - pred_lowq))
+            y_trans = transform_from_bounds(y_trans, 0, ((self.u - pred_median) / (pred_median - pred_lowq))[mask])
         self.est_highq.fit(X[mask], y_trans)
 
         return self
-- 
2.43.0


From 04f05daa890cad8a4ad42e094492258fd0050445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:46 +0000
Subject: [PATCH 10/50] fix: keep values of constant neighbourhoods in the
 sliding-window regularisation

If all values within a window are equal their variance is zero. The division by
it gave not a number, so that the bin lost its value.
---
 cyclic_boosting/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cyclic_boosting/utils.py b/cyclic_boosting/utils.py
index d82e56e..97f118d 100644
--- a/cyclic_boosting/utils.py
+++ b/cyclic_boosting/utils.py
@@ -883,11 +883,12 @@ def regularize_to_error_weighted_mean_neighbors(
     sum_wx = np.convolve(wx, window_arr, "same")
     x_mean = np.convolve(wx * x, window_arr, "same") / sum_wx
 
-    wx_incl = np.ones(len(x))
+    variance = np.ones(len(x))
     for i in range(len(x)):
-        wx_incl[i] = (sum_wx / np.convolve(wx * np.square(x - x_mean[i]), window_arr, "same"))[i]
+        variance[i] = (np.convolve(wx * np.square(x - x_mean[i]), window_arr, "same") / sum_wx)[i]
 
-    res = (wx * x + wx_incl * x_mean) / (wx + wx_incl)
+    # the weight of the mean is the inverse variance, which may be zero
+    res = (wx * x * variance + x_mean) / (wx * variance + 1)
     return res
 
 
-- 
2.43.0


From 1f900efb988cb665661252567c4bf4bcc7811098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:46 +0000
Subject: [PATCH 11/50] fix: do not clip the prior prediction column of the
 caller

The dispersion model clipped the column in place, which changed the data passed
to fit and predict.
---
 cyclic_boosting/nbinom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/nbinom.py b/cyclic_boosting/nbinom.py
index 7b7e798..f1c5185 100644
--- a/cyclic_boosting/nbinom.py
+++ b/cyclic_boosting/nbinom.py
@@ -144,7 +144,7 @@ class CBNBinomC(CyclicBoostingBase, sklearn.base.RegressorMixin, LogitLinkMixin)
             prior_prediction_link = np.repeat(self.neutral_factor_link, X.shape[0])
         else:
             prior_pred = get_X_column(X, self.prior_prediction_column)
-            np.clip(prior_pred, 0, 1, prior_pred)
+            prior_pred = np.clip(prior_pred, 0, 1)
             prior_prediction_link = self.link_func(prior_pred)
             finite = np.isfinite(prior_prediction_link)
             prior_prediction_link[~finite] = self.neutral_factor_link
-- 
2.43.0


From 08f4fc762ccaccf4a15027166f1e566c7253a2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:46 +0000
Subject: [PATCH 12/50] fix: pass the variance parameters to the price
 elasticity pipeline

The parameters a and c were accepted by the pipeline function but never reached
the estimator.
---
 cyclic_boosting/pipelines.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cyclic_boosting/pipelines.py b/cyclic_boosting/pipelines.py
index f7689de..c27fe7f 100644
--- a/cyclic_boosting/pipelines.py
+++ b/cyclic_boosting/pipelines.py
@@ -101,6 +101,8 @@ def pipeline_CB(
             learn_rate=learn_rate,
             var_prior_exponent=var_prior_exponent,
             prior_exponent_colname=prior_exponent_colname,
+            a=a,
+            c=c,
         )
     elif estimator == CBNBinomC:
         estimatorCB = estimator(
-- 
2.43.0


From 3fde2be3ff2939b3c0437330d1ec443ef5ea3e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:46 +0000
Subject: [PATCH 13/50] fix: make the quantile of tied values independent of
 the weight scale

The position within a group of equal values compared a sum of weights with an
array index. Multiplying all weights by a constant therefore changed the
quantile.
---
 cyclic_boosting/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/utils.py b/cyclic_boosting/utils.py
index 97f118d..ef5a9c0 100644
--- a/cyclic_boosting/utils.py
+++ b/cyclic_boosting/utils.py
@@ -1056,7 +1056,7 @@ def continuous_quantile_from_discrete_pdf(y, quantile, weights):
     index_low = all_quantile_y[0]
     index_high = all_quantile_y[-1]
     if index_high > index_low:
-        quantile_y += (int(quantile_index) - index_low) / (index_high - index_low)
+        quantile_y += (np.sum(cumsum <= quantile_index) - index_low) / (index_high - index_low)
 
     return quantile_y
 
-- 
2.43.0


From 8ca09e1fa430ca890018c3fb637cf4eeb3d4d595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:46 +0000
Subject: [PATCH 14/50] fix: number rows as missing when no row has valid bins

If the number of bins was given and all rows were missing, the rows were
assigned to the first bin instead of the missing bin.
---
 cyclic_boosting/utils.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/cyclic_boosting/utils.py b/cyclic_boosting/utils.py
index ef5a9c0..f398982 100644
--- a/cyclic_boosting/utils.py
+++ b/cyclic_boosting/utils.py
@@ -240,10 +240,7 @@ def multidim_binnos_to_lexicographic_binnos(binnos, n_bins=None, binsteps=None):
     is_valid = np.isfinite(binnos).all(axis=1)
     is_valid[is_valid] &= ((binnos[is_valid] >= 0) & (binnos[is_valid] < n_bins[None, :])).all(axis=1)
 
-    if not np.any(is_valid):
-        result = np.repeat(0, len(binnos))
-    else:
-        result = np.repeat(np.product(n_bins), len(binnos))
+    result = np.repeat(np.product(n_bins), len(binnos))
 
     result[is_valid] = np.dot(np.floor(binnos[is_valid]), binsteps[1:])
 
-- 
2.43.0


From 5731dc60b78f5e1a32d93775fe46f61c779513e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:26 +0000
Subject: [PATCH 15/50] fix: reject empty targets and targets of the wrong
 length

The emptiness check combined two comparisons with a bitwise operator, so it only
fired when both inputs were empty. A target with a single element was silently
used for all rows.
---
 cyclic_boosting/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index dc680db..3941ba8 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -945,8 +945,10 @@ class CyclicBoostingBase(
 
     def _check_len_data(self, X: Union[pd.DataFrame, np.ndarray], y: np.ndarray) -> None:
         """Check that input arrays are not empty"""
-        if len(X) == 0 | len(y) == 0:
+        if len(X) == 0 or len(y) == 0:
             raise ValueError("Estimator should be applied on non-empty data")
+        if len(X) != len(y):
+            raise ValueError("The feature matrix and the target need to have the same length")
 
     def _check_y(self, y: np.ndarray) -> None:
         """Check that y has the correct values. Has to be
-- 
2.43.0


From 9a9fda8a609989567f6702f4ad5cee0651b9eecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:26 +0000
Subject: [PATCH 16/50] fix: let fit_transform fill the output column like
 transform does

The column was filled with internal in-sample values. For classifiers these are
probabilities while transform writes classes. For additive count models they
were not limited to non-negative values. The price and dispersion models failed
because their own fit preparation was skipped.
---
 cyclic_boosting/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index 3941ba8..6b1423e 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -863,7 +863,7 @@ class CyclicBoostingBase(
                 raise KeyError("""output_column "{}" exists already""".format(self.output_column))
         except AttributeError:
             raise TypeError("data needs to be a dataframe for the usage as a fit_transformer")
-        X[self.output_column] = self._fit_predict(X, y)
+        X[self.output_column] = self.fit(X, y).predict(X)
         return X
 
     def transform(self, X: pd.DataFrame, y: Optional[np.ndarray] = None) -> pd.DataFrame:
-- 
2.43.0


From d50d2dac5f1baf31c5e365dfff1ace67f493a794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:26 +0000
Subject: [PATCH 17/50] fix: accept any sequence as target of the price
 elasticity model

All other estimators convert the target to an array first. A list failed here,
and a series with its own index was aligned by label instead of position.
---
 cyclic_boosting/price.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cyclic_boosting/price.py b/cyclic_boosting/price.py
index 56f3ea0..112b3ea 100644
--- a/cyclic_boosting/price.py
+++ b/cyclic_boosting/price.py
@@ -415,6 +415,7 @@ class CBExponential(CBNBinomRegressor):
         return pred
 
     def fit(self, X, y=None):
+        y = np.asarray(y)
         self._init_fit(X, y)
         pred = CBLinkPredictions(
             self._get_prior_predictions(X),
-- 
2.43.0


From b811a6ffb0260e909325716eaba064d3b1510cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:26 +0000
Subject: [PATCH 18/50] fix: support bins without weight in the location
 regressor

A bin in which all rows have zero weight gave an undefined variance. The
smoothing spread it to all bins of the feature, which lost its whole effect.
---
 cyclic_boosting/location.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/location.py b/cyclic_boosting/location.py
index 15e2ad8..34c5663 100644
--- a/cyclic_boosting/location.py
+++ b/cyclic_boosting/location.py
@@ -115,7 +115,7 @@ def precalc_variance_y(feature, y, weights, n_prior=1):
 
     sum_y = np.bincount(lex_binnumbers, weights=weights * y, minlength=minlength)
     sum_weights = np.bincount(lex_binnumbers, weights=weights, minlength=minlength)
-    mean_y = sum_y[lex_binnumbers] / sum_weights[lex_binnumbers]
+    mean_y = (sum_y / np.where(sum_weights > 0, sum_weights, 1.0))[lex_binnumbers]
     weighted_squared_residual_sum = np.bincount(
         lex_binnumbers, weights=weights * (y - mean_y) ** 2, minlength=minlength
     )
-- 
2.43.0


From 92d7d093f854dff4fac5eaad4991ef3f99bc7374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:26 +0000
Subject: [PATCH 19/50] fix: keep empty bins neutral in the dispersion model

Without any rows all candidate parameters have the same loss, and the first and
most extreme one was chosen. A missing value at prediction time then got an
extreme dispersion if no value had been missing in the training.
---
 cyclic_boosting/nbinom.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cyclic_boosting/nbinom.py b/cyclic_boosting/nbinom.py
index f1c5185..6710397 100644
--- a/cyclic_boosting/nbinom.py
+++ b/cyclic_boosting/nbinom.py
@@ -126,6 +126,7 @@ class CBNBinomC(CyclicBoostingBase, sklearn.base.RegressorMixin, LogitLinkMixin)
         )
 
         bincounts = np.bincount(binnumbers, minlength=minlength)
+        c_link_estimate[bincounts == 0] = self.neutral_factor_link
         bincounts[bincounts < 1] = 1.0
         return c_link_estimate, 1.0 / np.sqrt(bincounts)
 
-- 
2.43.0


From 94ef5bfb09e2b23d7863d062c38adf8904fc39ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:26 +0000
Subject: [PATCH 20/50] fix: do not use the mean prediction column as default
 feature

Without explicit feature groups the dispersion model treated its mean
predictions as bin numbers of a feature. Arrays as input were not supported
either.
---
 cyclic_boosting/nbinom.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cyclic_boosting/nbinom.py b/cyclic_boosting/nbinom.py
index 6710397..6db2f0c 100644
--- a/cyclic_boosting/nbinom.py
+++ b/cyclic_boosting/nbinom.py
@@ -135,11 +135,15 @@ class CBNBinomC(CyclicBoostingBase, sklearn.base.RegressorMixin, LogitLinkMixin)
         return loss_nbinom_c(y.astype(np.float64), self.mu, c, self.gamma)
 
     def fit(self, X, y=None):
-        self.mu = X[self.mean_prediction_column].values
+        self.mu = np.asarray(get_X_column(X, self.mean_prediction_column), dtype=np.float64)
         _ = self._fit_predict(X, y)
         del self.mu
         return self
 
+    def _init_default_feature_groups(self, X):
+        CyclicBoostingBase._init_default_feature_groups(self, X)
+        self.feature_groups = [col for col in self.feature_groups if col != self.mean_prediction_column]
+
     def _get_prior_predictions(self, X):
         if self.prior_prediction_column is None:
             prior_prediction_link = np.repeat(self.neutral_factor_link, X.shape[0])
-- 
2.43.0


From f5751f7cf10fbab31bce0e0ca3c55c5741c7a232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:12 +0000
Subject: [PATCH 21/50] fix: undo diverging iterations only for features that
 took part, and only once

With hierarchical feature groups the removal failed for features that had not
been trained yet. Without aggregation the effects were removed a second time in
the next iteration, so that later updates were computed against wrong
predictions.
---
 cyclic_boosting/base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index 6b1423e..a78d79f 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -556,6 +556,9 @@ class CyclicBoostingBase(
 
     def remove_preds(self, pred: CBLinkPredictionsFactors, X: np.ndarray) -> None:
         for feature in self.features:
+            if not feature.is_fitted:
+                continue
+
             if feature.feature_type is None:
                 weights = self.weights
             else:
@@ -567,6 +570,9 @@ class CyclicBoostingBase(
             pred.remove_predictions(feature_predictions, feature)
 
             feature.fitted_aggregated -= feature.factors_link
+            if not self.aggregate:
+                # already removed, must not be removed again in the next iteration
+                feature.factors_link = np.ones(feature.n_bins) * self.neutral_factor_link
             feature.unbind_data()
 
     def _set_factors_per_feature(self, feature: Feature) -> Tuple[float, int]:
-- 
2.43.0


From 11414a84b26488e8993b363eb95d1b50f1b6bd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:12 +0000
Subject: [PATCH 22/50] fix: keep missing values neutral when damping a
 diverging training

Damping moved the factor of the missing bin towards the estimate from the data,
even for features that are declared not to learn missing values.
---
 cyclic_boosting/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index a78d79f..deb4085 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -642,6 +642,8 @@ class CyclicBoostingBase(
                         unfitted_factors + np.log(1.2),
                         out=feature.factors_link,
                     )
+                    if feature.missing_not_learned:
+                        feature.factors_link[-1] = self.neutral_factor_link
 
         if feature.is_fitted:
             if self.aggregate:
-- 
2.43.0


From 805e3cf1ef8b04b1c5816d9308454618a6da4e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:12 +0000
Subject: [PATCH 23/50] fix: treat magic integers as missing when determining
 bins

The values -9 and -999 are missing values if so declared. They were mapped to
the missing bin, but still used to determine the bins. This left empty bins and
shifted the bin numbers of all other values.
---
 cyclic_boosting/binning/ecdf_transformer.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cyclic_boosting/binning/ecdf_transformer.py b/cyclic_boosting/binning/ecdf_transformer.py
index 6170ef2..0692310 100644
--- a/cyclic_boosting/binning/ecdf_transformer.py
+++ b/cyclic_boosting/binning/ecdf_transformer.py
@@ -223,7 +223,11 @@ class ECdfTransformer(sklearnb.BaseEstimator, sklearnb.TransformerMixin):
             if feature_prop is None:
                 continue
 
-            bins_x, cdf_x, _wsum, _n_nan = calculate_cdf_from_weighted_data(x_col.astype(float), weights)
+            x_col = x_col.astype(float)
+            if flags.has_magic_missing_set(feature_prop):
+                x_col[(x_col == -9) | (x_col == -999)] = np.nan
+
+            bins_x, cdf_x, _wsum, _n_nan = calculate_cdf_from_weighted_data(x_col, weights)
 
             if len(bins_x) == 0 or len(cdf_x) == 0:
                 self.bins_and_cdfs_.append((col, self.epsilon, None))
@@ -282,6 +286,9 @@ class ECdfTransformer(sklearnb.BaseEstimator, sklearnb.TransformerMixin):
             if feature_property is None:
                 continue
 
+            if flags.has_magic_missing_set(feature_property):
+                Xnp[(Xnp[:, j] == -9) | (Xnp[:, j] == -999), j] = np.nan
+
             if bins_and_cdfs is not None:
                 if flags.is_continuous_set(feature_property):
                     le_interp_multi(
-- 
2.43.0


From 5fc25fac03ac0a43e6e95bf40adfa9ba223a1087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:18:57 +0000
Subject: [PATCH 24/50] fix: derive default feature groups anew in every
 training

An estimator without feature groups stored the columns of its first training as
its option. A second training on data with other columns then failed or ignored
columns, and clones of a trained estimator had different options.
---
 cyclic_boosting/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index deb4085..5184b2a 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -711,11 +711,13 @@ class CyclicBoostingBase(
         self._init_weight_column(X)
         self._init_external_column(X, True)
 
-        if self.feature_groups is None:
+        feature_groups = self.feature_groups
+        if feature_groups is None:
             self._init_default_feature_groups(X)
 
         self._check_weights()
         self._init_features()
+        self.feature_groups = feature_groups
         self._init_global_scale(X, y)
 
     def _fit_main(self, X: np.ndarray, y: np.ndarray, pred: CBLinkPredictionsFactors) -> np.ndarray:
-- 
2.43.0


From 5449f96c02326a722adf416b5ce55b503f8f6f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:23:19 +0000
Subject: [PATCH 25/50] fix: do not overwrite the positions passed to the
 polynomial smoother

Predicting outside of the fitted range clipped the positions in the array of
the caller.
---
 cyclic_boosting/smoothing/onedim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/smoothing/onedim.py b/cyclic_boosting/smoothing/onedim.py
index a050b7d..b03960b 100644
--- a/cyclic_boosting/smoothing/onedim.py
+++ b/cyclic_boosting/smoothing/onedim.py
@@ -257,7 +257,7 @@ class OrthogonalPolynomialSmoother(AbstractBinSmoother):
         assert X.ndim == 2
         if not hasattr(self, "pp_"):
             raise ValueError("The {} has not been fitted!".format(self.__class__.__name__))
-        x = np.ascontiguousarray(X[:, 0], dtype=np.float64)
+        x = np.array(X[:, 0], dtype=np.float64)
         x[x < self.minimal_x] = self.minimal_x
         x[x > self.maximal_x] = self.maximal_x
         y = cy_apply_orthogonal_poly_fit_equidistant(x, self.pp_, self.n_degrees_)
-- 
2.43.0


From 61dec6a981a14848c82ac5fb88a567561d96c73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:23:19 +0000
Subject: [PATCH 26/50] fix: use the configured missing value representation in
 SectionSmoother

The option nan_representation was ignored and always replaced by NaN.
---
 cyclic_boosting/smoothing/meta_smoother.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/smoothing/meta_smoother.py b/cyclic_boosting/smoothing/meta_smoother.py
index b5543f9..a81c36a 100644
--- a/cyclic_boosting/smoothing/meta_smoother.py
+++ b/cyclic_boosting/smoothing/meta_smoother.py
@@ -263,7 +263,7 @@ class SectionSmoother(AbstractBinSmoother):
         self.split_point = split_point
         self.smoother_lower = smoother_lower
         self.smoother_upper = smoother_upper
-        self.nan_representation = np.nan
+        self.nan_representation = nan_representation
         self.epsilon = epsilon
         self._reset_smoother_status()
 
-- 
2.43.0


From 752edb5efa4fddcc0251258b2e6ad84f71109d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:30:31 +0000
Subject: [PATCH 27/50] fix: let the base observer accept what estimators pass
 to it

Estimators pass the factor change, and quantile estimators also the quantile.
The base class did not accept these arguments, so that attaching it failed.
---
 cyclic_boosting/observers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/observers.py b/cyclic_boosting/observers.py
index 8328b7b..54d5100 100644
--- a/cyclic_boosting/observers.py
+++ b/cyclic_boosting/observers.py
@@ -16,7 +16,7 @@ class BaseObserver(object):
     order to make predictions.
     """
 
-    def observe_iterations(self, iteration, X, y, prediction, weights, estimator_state):
+    def observe_iterations(self, iteration, X, y, prediction, weights, estimator_state, delta=None, quantile=None):
         """
         Called after each iteration of the algorithm.
 
-- 
2.43.0


From cc87f45129ff0279c2357159acb9ce3a3cb80e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:35:50 +0000
Subject: [PATCH 28/50] fix: support empty bins in the generalized background
 subtraction

A bin without rows, or without any deviation from the prediction, got an
uncertainty of zero. Smoothing then divided by zero, so that training failed
or the whole feature lost its effect.
---
 cyclic_boosting/GBSregression.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cyclic_boosting/GBSregression.py b/cyclic_boosting/GBSregression.py
index 01c1596..e99033c 100644
--- a/cyclic_boosting/GBSregression.py
+++ b/cyclic_boosting/GBSregression.py
@@ -88,7 +88,12 @@ class CBGBSRegressor(RegressorMixin, CyclicBoostingBase, IdentityLinkMixin):
         summand = sum_n / sum_d
         variance_summand = (sum_d**2 * sum_n2 - 2.0 * sum_n * sum_d * sum_nd + sum_n**2 * sum_d2) / sum_d**4
 
-        return summand, np.sqrt(variance_summand)
+        uncertainties = np.sqrt(variance_summand)
+        # bins without any deviation, e.g. empty ones, carry no information on their uncertainty
+        spread = np.sqrt(np.sum(self.weights * (y - prediction) ** 2) / np.sum(self.weights))
+        uncertainties = np.where(uncertainties > 0, uncertainties, spread if spread > 0 else 1.0)
+
+        return summand, uncertainties
 
     def _check_y(self, y: np.ndarray):
         pass
-- 
2.43.0


From da350317c393003009735519e1a3e2e31388db16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:35:50 +0000
Subject: [PATCH 29/50] fix: support targets without variation in
 CBLocPoissonRegressor

The standard deviation of such a target is zero. The regularization divided by
it, so that training failed or a prior prediction was never corrected.
---
 cyclic_boosting/location.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cyclic_boosting/location.py b/cyclic_boosting/location.py
index 34c5663..1f715d8 100644
--- a/cyclic_boosting/location.py
+++ b/cyclic_boosting/location.py
@@ -24,6 +24,8 @@ class CBLocPoissonRegressor(CyclicBoostingBase, sklearn.base.RegressorMixin, Ide
         weights = self.weights
 
         global_std = weighted_stddev(y, weights)
+        if not global_std > 0:  # no variation in y
+            global_std = 1.0
         y_sum = np.bincount(lex_binnumbers, weights=y * weights, minlength=minlength)
         bincount = np.bincount(lex_binnumbers, weights=weights, minlength=minlength)
         return y_sum, bincount, global_std
-- 
2.43.0


From da760ac7fc61df926148e90a05357fadc34a1cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:36:38 +0000
Subject: [PATCH 30/50] fix: classify when almost all targets are positive

The mean target is raised by a small constant. It exceeded one when more than
99.9 % of the targets were positive, and all probabilities became NaN.
---
 cyclic_boosting/base.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index 5184b2a..c72f6b9 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -16,7 +16,7 @@ from cyclic_boosting import common_smoothers, learning_rate, link
 from cyclic_boosting.binning import get_feature_column_names_or_indices
 from cyclic_boosting.common_smoothers import SmootherChoice
 from cyclic_boosting.features import create_features, Feature, FeatureList, FeatureTypes, create_feature_id
-from cyclic_boosting.link import IdentityLinkMixin, LogLinkMixin
+from cyclic_boosting.link import IdentityLinkMixin, LogitLinkMixin, LogLinkMixin
 from cyclic_boosting.utils import (
     slice_finite_semi_positive,
     nans,
@@ -405,7 +405,10 @@ class CyclicBoostingBase(
             raise RuntimeError("The weights have to be initialized.")
 
         minimal_prediction = 0.001
-        self.global_scale_link_ = self.link_func(np.sum(y * self.weights) / np.sum(self.weights) + minimal_prediction)
+        global_mean = np.sum(y * self.weights) / np.sum(self.weights) + minimal_prediction
+        if isinstance(self, LogitLinkMixin):
+            global_mean = np.minimum(global_mean, 1.0 - minimal_prediction)
+        self.global_scale_link_ = self.link_func(global_mean)
 
         if self.prior_prediction_column is not None:
             prior_pred = get_X_column(X, self.prior_prediction_column)
-- 
2.43.0


From 9e27f0ef5515d2fe3ef72226d1f791e3fe5a9646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:40:44 +0000
Subject: [PATCH 31/50] fix: ignore a feature that diverges in its first update

In hierarchical training a feature can be updated for the first time while the
training diverges. Undoing its effect failed because there was none yet.
---
 cyclic_boosting/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index c72f6b9..f43213b 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -634,7 +634,10 @@ class CyclicBoostingBase(
                             feature.feature_group
                         )
                         warnings.warn(msg)
-                        feature.factors_link = -feature.fitted_aggregated
+                        if feature.is_fitted:
+                            feature.factors_link = -feature.fitted_aggregated
+                        else:
+                            feature.factors_link = np.full(feature.n_bins, self.neutral_factor_link)
                         feature.smoother = ZeroSmoother()
                 elif check_diverged():
                     msg = "Feature factors for {} will be clipped due to diverging loss".format(feature.feature_group)
-- 
2.43.0


From 9eb49112cb24e177f31914f648e3f71bf44785ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:02:06 +0000
Subject: [PATCH 32/50] fix: keep factors of generic losses positive

The optimizer can end at a negative factor, e.g. in bins with only zero
targets. Its logarithm is not defined, and smoothing spread the missing value
to all bins of the feature.
---
 cyclic_boosting/generic_loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/generic_loss.py b/cyclic_boosting/generic_loss.py
index c8963fa..cfaebc6 100644
--- a/cyclic_boosting/generic_loss.py
+++ b/cyclic_boosting/generic_loss.py
@@ -92,7 +92,7 @@ class CBGenericLoss(CyclicBoostingBase):
         neutral_factor = self.unlink_func(np.array(self.neutral_factor_link))
         if neutral_factor != 0:
             epsilon = 1e-5
-            parameters = np.where(np.abs(parameters) < epsilon, epsilon, parameters)
+            parameters = np.where(parameters < epsilon, epsilon, parameters)
             parameters = np.log(parameters)
 
         return parameters, uncertainties
-- 
2.43.0


From 5b9c8b504d0af35c885432a035a0a7cfcf6c520e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:28:29 +0000
Subject: [PATCH 33/50] fix: weighted quantile does not depend on the row order

Rows with equal target values but different weights were interpolated in
the order in which they happened to be sorted. Hence the global scale of
quantile models changed when the training rows were permuted.
---
 cyclic_boosting/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/utils.py b/cyclic_boosting/utils.py
index f398982..52fda02 100644
--- a/cyclic_boosting/utils.py
+++ b/cyclic_boosting/utils.py
@@ -1043,7 +1043,7 @@ def continuous_quantile_from_discrete_pdf(y, quantile, weights):
     y = np.asarray(y)
     weights = np.asarray(weights)
 
-    sorting = y.argsort()
+    sorting = np.lexsort((weights, y))
     sorted_y = y[sorting]
     cumsum = weights[sorting].cumsum()
     quantile_index = weights.sum() * quantile
-- 
2.43.0


From e0f334beb358b4e71c1cd68048f694bacae1a162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:33:43 +0000
Subject: [PATCH 34/50] fix: recognize targets without variation in spite of
 rounding

The weighted standard deviation of a constant target can be a tiny number
instead of zero, depending on the order of the rows.
---
 cyclic_boosting/location.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/location.py b/cyclic_boosting/location.py
index 1f715d8..96f512c 100644
--- a/cyclic_boosting/location.py
+++ b/cyclic_boosting/location.py
@@ -24,7 +24,7 @@ class CBLocPoissonRegressor(CyclicBoostingBase, sklearn.base.RegressorMixin, Ide
         weights = self.weights
 
         global_std = weighted_stddev(y, weights)
-        if not global_std > 0:  # no variation in y
+        if not global_std > 1e-10 * np.max(np.abs(y)):  # no variation in y up to rounding
             global_std = 1.0
         y_sum = np.bincount(lex_binnumbers, weights=y * weights, minlength=minlength)
         bincount = np.bincount(lex_binnumbers, weights=weights, minlength=minlength)
-- 
2.43.0


From 7dd08b61ae79e597aa47cc5d6d18077cc4947ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:42:28 +0000
Subject: [PATCH 35/50] fix: use the fallback of the seasonal smoother when its
 fit does not converge

Only a fit with too few bins was handled. A fit that reached the maximal
number of function calls raised an error and aborted the training.
---
 cyclic_boosting/smoothing/onedim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/smoothing/onedim.py b/cyclic_boosting/smoothing/onedim.py
index b03960b..0eb1d79 100644
--- a/cyclic_boosting/smoothing/onedim.py
+++ b/cyclic_boosting/smoothing/onedim.py
@@ -379,7 +379,7 @@ class SeasonalSmoother(AbstractBinSmoother):
             self.par_, _ = scipy.optimize.curve_fit(self.fit_function, xdata=xdata, ydata=y, sigma=X_for_smoother[:, 2])
             if self.offset_tozero:
                 self.par_[0] = 0.0
-        except TypeError:
+        except (TypeError, RuntimeError):
             warnings.warn("Seasonal Smoother did not converge. Fallback value is used")
             self.converged = False
         else:
-- 
2.43.0


From c611872ecdf368c0b3a131cbb1169a2a857a49aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:04:32 +0000
Subject: [PATCH 36/50] fix: weighted quantile ignores rows of weight zero

Rows without weight were counted when the quantile value was interpolated
between repeated target values.
---
 cyclic_boosting/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cyclic_boosting/utils.py b/cyclic_boosting/utils.py
index 52fda02..ded8fc4 100644
--- a/cyclic_boosting/utils.py
+++ b/cyclic_boosting/utils.py
@@ -1043,6 +1043,10 @@ def continuous_quantile_from_discrete_pdf(y, quantile, weights):
     y = np.asarray(y)
     weights = np.asarray(weights)
 
+    used = weights > 0
+    if used.any():
+        y, weights = y[used], weights[used]
+
     sorting = np.lexsort((weights, y))
     sorted_y = y[sorting]
     cumsum = weights[sorting].cumsum()
-- 
2.43.0


From 243c134cb3d2421b045f51da09a2aad448fd6163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:19:23 +0000
Subject: [PATCH 37/50] fix: train at least one iteration whatever the stop
 thresholds

The start value of the factor change is 100, so a threshold of 100 or more
stopped training before the first iteration and then failed with a TypeError.
Additive models on large targets can have such thresholds.
---
 cyclic_boosting/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index f43213b..debdb62 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -742,7 +742,11 @@ class CyclicBoostingBase(
 
         convergence_parameters = ConvergenceParameters()
 
-        while (not self._check_stop_criteria(self.iteration_, convergence_parameters)) or self.is_diverging:
+        while (
+            self.iteration_ == 0
+            or (not self._check_stop_criteria(self.iteration_, convergence_parameters))
+            or self.is_diverging
+        ):
             self._call_observe_iterations(self.iteration_, X, y, prediction, convergence_parameters.delta)
 
             self._log_iteration_info(convergence_parameters)
-- 
2.43.0


From a2a441f5eb09a412de6816590b7c90cd8ba6d0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:53:12 +0000
Subject: [PATCH 38/50] fix: use the base value for all rows if the mean prior
 is not usable

A model with prior predictions shifts them so that their mean maps to the
base value. If the mean has no finite value on the model's scale, a
warning says that no individualization is done. Rows with a valid prior
were nevertheless multiplied by (or added to) their prior without any
calibration. All rows now use the base value.
---
 cyclic_boosting/base.py         | 2 +-
 cyclic_boosting/generic_loss.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index debdb62..81dc7a7 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -433,7 +433,7 @@ class CyclicBoostingBase(
                     "Therefore no individualization is done "
                     "and no prior mean subtraction is necessary."
                 )
-                self.prior_pred_link_offset_ = float(self.global_scale_link_)
+                self.prior_pred_link_offset_ = float("nan")
 
     def _check_weights(self) -> None:
         if self.weights is None:
diff --git a/cyclic_boosting/generic_loss.py b/cyclic_boosting/generic_loss.py
index cfaebc6..06739e5 100644
--- a/cyclic_boosting/generic_loss.py
+++ b/cyclic_boosting/generic_loss.py
@@ -401,7 +401,7 @@ class CBQuantileRegressor(CBGenericLoss, sklearn.base.RegressorMixin):
                     "Therefore no individualization is done "
                     "and no prior mean subtraction is necessary."
                 )
-                prior_pred_link_offset_ = float(global_scale_link_)
+                prior_pred_link_offset_ = float("nan")
 
         return global_scale_link_, prior_pred_link_offset_
 
-- 
2.43.0


From f00a052844779feaa398076943320b34b1ccab91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:53:12 +0000
Subject: [PATCH 39/50] fix: reject predictions of untrained estimators

The check for a trained estimator looked at the feature list. That list
is created in the constructor already, so the check never failed.
Depending on smoother and data, predicting without training ended in an
unrelated error or even in a result. The check now also looks at the
base value, which is set by training only.
---
 cyclic_boosting/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index 81dc7a7..6c2c328 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -960,7 +960,7 @@ class CyclicBoostingBase(
 
     def _check_fitted(self) -> None:
         """Check if fit was called"""
-        if self.features is None:
+        if self.features is None or self.global_scale_link_ is None:
             raise ValueError("fit must be called first.")
 
     def _check_len_data(self, X: Union[pd.DataFrame, np.ndarray], y: np.ndarray) -> None:
-- 
2.43.0


From 1fe4e4b5703e8a095db16009ab705ef008d9b491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:00:13 +0000
Subject: [PATCH 40/50] fix: define the sinh-logistic quantile function at
 probability one

The quantile function divided by zero when it was called with the Python
number 1.0, while arrays and all other base distributions give infinity.
The probability is now converted to an array first.
---
 cyclic_boosting/quantile_matching.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cyclic_boosting/quantile_matching.py b/cyclic_boosting/quantile_matching.py
index 692056f..5141563 100644
--- a/cyclic_boosting/quantile_matching.py
+++ b/cyclic_boosting/quantile_matching.py
@@ -298,6 +298,7 @@ class SinhLogistic:
 
     def ppf(self, x: Union[float, np.ndarray]) -> Union[float, np.ndarray]:
         # ppf of natural logistic distribution
+        x = np.asarray(x, dtype=float)
         xlog = 0.25 * np.log(x / (1.0 - x))
 
         # sinh or arcsinh scaling
-- 
2.43.0


From df7f718118c07496fe00a2c8ae20cb35986f53f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:04:37 +0000
Subject: [PATCH 41/50] fix: keep values transformed back into bounds below the
 upper bound

Rounding could lift the largest values one unit in the last place above
the upper bound. In the quantile chain this put predictions outside the
stated range. A low quantile above the median was even rejected as
unordered.
---
 cyclic_boosting/quantile_matching.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/quantile_matching.py b/cyclic_boosting/quantile_matching.py
index 5141563..3c14b25 100644
--- a/cyclic_boosting/quantile_matching.py
+++ b/cyclic_boosting/quantile_matching.py
@@ -625,7 +625,7 @@ def back_transform_in_bounds(z: np.ndarray, l: float, u: float) -> np.ndarray:
     x = 1.0 / (1.0 + np.exp(-z))
 
     # back transformation into [l, u]
-    return l + (u - l) * x
+    return np.minimum(l + (u - l) * x, u)
 
 
 def transform_from_semibound_lower(x: np.ndarray, l: float) -> np.ndarray:
-- 
2.43.0


From 8bdb4def8249dc48436f9d75c9ecbea3bf21250e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:16:14 +0000
Subject: [PATCH 42/50] fix: start the negative binomial quantile fit at the
 given quantiles

The fit always started at a mean of 2.2. The distribution function is
flat far away from there. For quantiles around 10 and above the fit did
not move and returned a distribution with a mean of 2.2. It now starts
at mean and variance of the given quantile values.
---
 cyclic_boosting/quantile_matching.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cyclic_boosting/quantile_matching.py b/cyclic_boosting/quantile_matching.py
index 3c14b25..2f8d60b 100644
--- a/cyclic_boosting/quantile_matching.py
+++ b/cyclic_boosting/quantile_matching.py
@@ -948,7 +948,9 @@ def quantile_fit_nbinom(quantiles: np.ndarray, quantile_values: np.ndarray, mode
     callable
         fitted negative binomial function (see mode)
     """
-    mu, var = curve_fit(_nbinom_cdf_mu_var, quantile_values, quantiles, p0=[2.2, 2.4])[0]
+    mu_start = max(np.mean(quantile_values), 0.1)
+    var_start = max(np.var(quantile_values), 1.1 * mu_start)
+    mu, var = curve_fit(_nbinom_cdf_mu_var, quantile_values, quantiles, p0=[mu_start, var_start])[0]
     n = mu * mu / (var - mu)
     p = mu / var
     if mode == "ppf":
-- 
2.43.0


From d8474ee73623a80ba3002ed37e190d6ae313c144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:18:48 +0000
Subject: [PATCH 43/50] fix: start the Gaussian quantile fit at the given
 quantiles

The fit started at mean and standard deviation one. For quantiles far
away from there a step of the search could reach a negative standard
deviation, which has no quantiles. The fit then failed or returned a
wrong distribution. It now starts at mean and standard deviation of the
given quantile values.
---
 cyclic_boosting/quantile_matching.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/quantile_matching.py b/cyclic_boosting/quantile_matching.py
index 2f8d60b..60a7137 100644
--- a/cyclic_boosting/quantile_matching.py
+++ b/cyclic_boosting/quantile_matching.py
@@ -850,7 +850,7 @@ def quantile_fit_gaussian(quantiles: np.ndarray, quantile_values: np.ndarray, mo
     def f(x, mu, sigma):
         return norm(loc=mu, scale=sigma).ppf(x)
 
-    mu, sigma = curve_fit(f, quantiles, quantile_values)[0]
+    mu, sigma = curve_fit(f, quantiles, quantile_values, p0=[np.mean(quantile_values), np.std(quantile_values)])[0]
     if mode == "ppf":
         return norm(mu, sigma).ppf
     elif mode == "dist":
-- 
2.43.0


From ae142f8bc8a4f77c9e10f03bcfbf64b6ad73d1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:35:05 +0000
Subject: [PATCH 44/50] fix: leave the observed bin weights alone when plotting
 marginals

Plotting a two-dimensional feature replaced weights of zero by one in the feature held by the observer.
The marginals are now computed on a copy of the weights.
---
 cyclic_boosting/plots/_2dplots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/plots/_2dplots.py b/cyclic_boosting/plots/_2dplots.py
index 9b6a9b4..9629df8 100644
--- a/cyclic_boosting/plots/_2dplots.py
+++ b/cyclic_boosting/plots/_2dplots.py
@@ -166,7 +166,7 @@ def plot_factor_2d(n_bins_finite, feature, grid_item=None):
     )
 
     def plot_marginal(axis):
-        w1 = np.reshape(weights[:-1], n_bins_finite)
+        w1 = np.reshape(weights[:-1], n_bins_finite).copy()
         w1[w1 == 0.0] = 1.0
         w = np.sum(w1, axis=axis)
 
-- 
2.43.0


From 631fc37174efd808213c13d676253d95c403e2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:35:05 +0000
Subject: [PATCH 45/50] fix: keep one bin center per bin of the in-sample
 histogram

Bins that hold only rows of weight zero have no mean.
Their centers were left out, so that the centers did not belong to the means any more and the diagonal plot failed.
---
 cyclic_boosting/observers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/observers.py b/cyclic_boosting/observers.py
index 54d5100..2495c76 100644
--- a/cyclic_boosting/observers.py
+++ b/cyclic_boosting/observers.py
@@ -222,7 +222,7 @@ def calc_in_sample_histograms(y, pred, weights, quantile=None):
     if quantile is not None:
         means = utils.calc_weighted_quantile(bin_numbers, y, weights, quantile)
         errors = None
-    bin_centers = bin_centers[np.where(~np.isnan(means.reindex(np.arange(1, nbins + 1))))]
+    bin_centers = bin_centers[np.isin(np.arange(1, nbins + 1), means.index)]
     # quantiles do not work for classification mode
     if np.isin(y, [0, 1]).all():
         return means, bin_centers, None, counts
-- 
2.43.0


From 139e5ccfd22e4696c7ca67e62b81713df3cf9f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:00:15 +0000
Subject: [PATCH 46/50] fix: report quantiles of all bins of interaction
 features

The tables that quantile regressors prepare for observers left out empty cells at the end of an interaction feature.
They now hold one entry per bin.
---
 cyclic_boosting/generic_loss.py | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/cyclic_boosting/generic_loss.py b/cyclic_boosting/generic_loss.py
index 06739e5..29a76ab 100644
--- a/cyclic_boosting/generic_loss.py
+++ b/cyclic_boosting/generic_loss.py
@@ -270,7 +270,8 @@ class CBQuantileRegressor(CBGenericLoss, sklearn.base.RegressorMixin):
             feature.bind_data(X, weights)
 
             sum_w, _, sum_pw = (
-                np.bincount(feature.lex_binned_data, weights=w) for w in [weights, weights * y, weights * prediction]
+                np.bincount(feature.lex_binned_data, weights=w, minlength=feature.n_bins)
+                for w in [weights, weights * y, weights * prediction]
             )
 
             df = pd.DataFrame({"y": y, "weights": weights, "binnumbers": feature.lex_binned_data})
@@ -278,29 +279,19 @@ class CBQuantileRegressor(CBGenericLoss, sklearn.base.RegressorMixin):
             def df_continuous_quantile_from_discrete_pdf(df, quantile):
                 return continuous_quantile_from_discrete_pdf(df["y"], quantile, df["weights"])
 
+            # keep potential empty bins in multi-dimensional features
             mean_target_binned = np.asarray(
-                df.groupby("binnumbers")[["y", "weights"]].apply(
-                    df_continuous_quantile_from_discrete_pdf, quantile=self.quantile
-                )
+                df.groupby("binnumbers")[["y", "weights"]]
+                .apply(df_continuous_quantile_from_discrete_pdf, quantile=self.quantile)
+                .reindex(np.arange(feature.n_bins), fill_value=1.0)
             )
 
             mean_prediction_binned = sum_pw / sum_w
             mean_prediction_binned = np.where(np.isfinite(mean_prediction_binned), mean_prediction_binned, 1.0)
 
-            # keep potential empty bins in multi-dimensional features
-            all_bins = range(max(feature.lex_binned_data) + 1)
-            empty_bins = list(set(np.unique(feature.lex_binned_data)) ^ set(all_bins))
-            for i in empty_bins:
-                mean_target_binned = np.insert(mean_target_binned, i, 1.0)
-
             mean_y_finite = continuous_quantile_from_discrete_pdf(y, self.quantile, weights)
             mean_prediction_finite = np.sum(sum_pw) / np.sum(sum_w)
 
-            if len(mean_target_binned) + 1 == feature.n_bins:
-                mean_target_binned = np.append(mean_target_binned, 1.0)
-            if len(mean_prediction_binned) + 1 == feature.n_bins:
-                mean_prediction_binned = np.append(mean_prediction_binned, 1.0)
-
             if isinstance(self, IdentityLinkMixin):
                 feature.mean_dev = mean_prediction_binned - mean_target_binned
                 feature.y = mean_target_binned - mean_y_finite
-- 
2.43.0


From 6423e24a8f3ffdec47787f4d8ff4e8ca5b63c1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:20:33 +0000
Subject: [PATCH 47/50] fix: use hierarchical feature groups given by
 set_params

The groups were only read when the estimator was created.
Groups set later were ignored and the old ones stayed in use.
They are now read at the start of every training.
---
 cyclic_boosting/base.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index 6c2c328..382a7e0 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -294,11 +294,6 @@ class CyclicBoostingBase(
         self.feature_properties = feature_properties
 
         self.features = None
-        self.hierarchical_features = []
-        if self.hierarchical_feature_groups is not None:
-            for fg in self.hierarchical_feature_groups:
-                hierarchical_feature = create_feature_id(fg)
-                self.hierarchical_features.append(hierarchical_feature.feature_group)
         self.training_iterations_hierarchical_features = training_iterations_hierarchical_features
         self.feature_importances = {}
         self.aggregate = aggregate
@@ -445,6 +440,11 @@ class CyclicBoostingBase(
         to it.
         """
         self.features = create_features(self.feature_groups, self.feature_properties, self.smoother_choice)
+        self.hierarchical_features = []
+        if self.hierarchical_feature_groups is not None:
+            for fg in self.hierarchical_feature_groups:
+                hierarchical_feature = create_feature_id(fg)
+                self.hierarchical_features.append(hierarchical_feature.feature_group)
 
     def _get_prior_predictions(self, X: Union[pd.DataFrame, np.ndarray]) -> np.ndarray:
         if self.prior_prediction_column is None:
-- 
2.43.0


From 7380a1a50f960430696a2e74e4d1e7a891185b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:20:34 +0000
Subject: [PATCH 48/50] fix: use feature groups of the price model given by
 set_params

The standard and external groups were only combined when the estimator was created.
Groups set later were ignored and the old ones stayed in use.
They are now combined at the start of every training.
---
 cyclic_boosting/price.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cyclic_boosting/price.py b/cyclic_boosting/price.py
index 112b3ea..1e1563f 100644
--- a/cyclic_boosting/price.py
+++ b/cyclic_boosting/price.py
@@ -266,6 +266,12 @@ class CBExponential(CBNBinomRegressor):
         self.epsilon_jacobian = 0.01
         self.starting_bound_bisect = 2
 
+    def _init_fit(self, X, y):
+        self.feature_groups = combine_lists_of_feature_groups(
+            self.standard_feature_groups, self.external_feature_groups
+        )
+        CBNBinomRegressor._init_fit(self, X, y)
+
     def required_columns(self):
         required_columns = CBNBinomRegressor.required_columns(self)
         required_columns.add(self.external_colname)
-- 
2.43.0


From b115235fc1aa52e85326a98a34ae74cf76fb17c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:26:31 +0000
Subject: [PATCH 49/50] fix: report the mean prediction column as required

The dispersion model cannot be trained without its column of mean predictions.
The column was missing from the set of required columns.
---
 cyclic_boosting/nbinom.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cyclic_boosting/nbinom.py b/cyclic_boosting/nbinom.py
index 6db2f0c..b5da1a9 100644
--- a/cyclic_boosting/nbinom.py
+++ b/cyclic_boosting/nbinom.py
@@ -140,6 +140,11 @@ class CBNBinomC(CyclicBoostingBase, sklearn.base.RegressorMixin, LogitLinkMixin)
         del self.mu
         return self
 
+    def required_columns(self):
+        required_columns = super().required_columns()
+        required_columns.add(self.mean_prediction_column)
+        return required_columns
+
     def _init_default_feature_groups(self, X):
         CyclicBoostingBase._init_default_feature_groups(self, X)
         self.feature_groups = [col for col in self.feature_groups if col != self.mean_prediction_column]
-- 
2.43.0


From 45a407437c86d19836fdade81cfd199a0b58801c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:13:43 +0000
Subject: [PATCH 50/50] fix: keep location training finite when all known
 values have weight zero

The location regressor centres the effect of each feature on its weighted mean.
If a feature does not learn missing values and all rows with a known value have weight zero, the sum of the weights is zero.
The division then made the profile of the feature and the loss undefined.
As a consequence all other features stayed at zero as well, or training failed.
The profile is now left as it is in this case.
---
 cyclic_boosting/location.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cyclic_boosting/location.py b/cyclic_boosting/location.py
index 96f512c..fd36aa8 100644
--- a/cyclic_boosting/location.py
+++ b/cyclic_boosting/location.py
@@ -219,10 +219,12 @@ class CBLocationRegressor(sklearn.base.RegressorMixin, CyclicBoostingBase, Ident
 
     def calibrate_to_weighted_mean(self, feature):
         if feature.missing_not_learned:
-            calibrated_factors_link = (
-                feature.factors_link[:-1]
-                - (feature.factors_link[:-1] * feature.bin_weightsums[:-1]).sum() / feature.bin_weightsums[:-1].sum()
-            )
+            weightsum = feature.bin_weightsums[:-1].sum()
+            calibrated_factors_link = feature.factors_link[:-1]
+            if weightsum > 0:
+                calibrated_factors_link = (
+                    calibrated_factors_link - (calibrated_factors_link * feature.bin_weightsums[:-1]).sum() / weightsum
+                )
             calibrated_factors_link = np.append(calibrated_factors_link, self.neutral_factor_link)
         else:
             calibrated_factors_link = (
-- 
2.43.0

