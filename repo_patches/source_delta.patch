From d6be0f7a18801110abe64401e7bf0024731714a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:50 +0000
Subject: [PATCH 01/69] fix: keep a minimum/maximum of zero when a numeric
 profile is updated

`not self.min` treated a stored extreme of 0 as missing, so the next batch
replaced it even when the batch did not reach past 0.
---
 dataprofiler/profilers/numerical_column_stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index fa0666a..96f30f7 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -1770,7 +1770,7 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
         subset_properties: dict,
     ) -> None:
         min_value = df_series.min()
-        self.min = min_value if not self.min else min(self.min, min_value)
+        self.min = min_value if self.min is None else min(self.min, min_value)
         subset_properties["min"] = min_value
 
     @BaseColumnProfiler._timeit(name="max")
@@ -1781,7 +1781,7 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
         subset_properties: dict,
     ) -> None:
         max_value = df_series.max()
-        self.max = max_value if not self.max else max(self.max, max_value)
+        self.max = max_value if self.max is None else max(self.max, max_value)
         subset_properties["max"] = max_value
 
     @BaseColumnProfiler._timeit(name="sum")
-- 
2.43.0


From 73d0c9d9e6ef51f5e2cbb709452f91e5fb5c7bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:51 +0000
Subject: [PATCH 02/69] fix: weigh precision variance by the prior sample size
 on update

The sample size was increased before the variances were merged, so the variance,
std and margin of error of the precision were wrong after any second batch.
---
 dataprofiler/profilers/float_column_profile.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dataprofiler/profilers/float_column_profile.py b/dataprofiler/profilers/float_column_profile.py
index bc426a4..3e5aaad 100644
--- a/dataprofiler/profilers/float_column_profile.py
+++ b/dataprofiler/profilers/float_column_profile.py
@@ -378,9 +378,7 @@ class FloatColumn(
             self._precision["max"] = max(
                 self._precision["max"], subset_precision["max"]
             )
-            self._precision["sum"] += subset_precision["sum"]
-            self._precision["sample_size"] += subset_precision["sample_size"]
-
+            # the merge weighs by the prior sample size, so it precedes its update
             self._precision["biased_var"] = self._merge_biased_variance(
                 self._precision["sample_size"],
                 self._precision["biased_var"],
@@ -390,6 +388,8 @@ class FloatColumn(
                 subset_precision["mean"],
             )
 
+            self._precision["sum"] += subset_precision["sum"]
+            self._precision["sample_size"] += subset_precision["sample_size"]
             self._precision["mean"] = (
                 self._precision["sum"] / self._precision["sample_size"]
             )
-- 
2.43.0


From d30726f23ff9959ea34a58336eab2f84d1ae948a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:44 +0000
Subject: [PATCH 03/69] fix: report the same text data type after a merge as
 after an update

A merged text column always called itself "text", even when every value was
short enough for the profile of the same rows to say "string".
---
 dataprofiler/profilers/text_column_profile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dataprofiler/profilers/text_column_profile.py b/dataprofiler/profilers/text_column_profile.py
index bea8dbd..5969a41 100644
--- a/dataprofiler/profilers/text_column_profile.py
+++ b/dataprofiler/profilers/text_column_profile.py
@@ -66,6 +66,8 @@ class TextColumn(
         if "vocab" in merged_profile.__calculations:
             merged_profile.vocab = self.vocab.copy()
             merged_profile._update_vocab(other.vocab)
+        if merged_profile.max:
+            merged_profile.type = "string" if merged_profile.max <= 255 else "text"
         return merged_profile
 
     def report(self, remove_disabled_flag: bool = False) -> dict:
-- 
2.43.0


From f4c5806ad8084c2f31157c3bd98c359dfc66e62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:44 +0000
Subject: [PATCH 04/69] fix: keep the histogram when only one merged side has
 one

Merging with a profile that saw no values dropped the stored histogram (and with
it median, mode and deviation) and shared the method state with the operand.
---
 dataprofiler/profilers/numerical_column_stats.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index 96f30f7..e4cd207 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -345,12 +345,16 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
         if "histogram_and_quantiles" in self.__calculations.keys():
             if other1._has_histogram and other2._has_histogram:
                 self._add_helper_merge_profile_histograms(other1, other2)
-            elif not other2._has_histogram:
-                self.histogram_methods = other1.histogram_methods
-                self.quantiles = other1.quantiles
             else:
-                self.histogram_methods = other2.histogram_methods
-                self.quantiles = other2.quantiles
+                # only one side (at most) has a histogram: carry its own over
+                source = other1 if not other2._has_histogram else other2
+                self.histogram_methods = copy.deepcopy(source.histogram_methods)
+                self.histogram_bin_method_names = list(
+                    source.histogram_bin_method_names
+                )
+                self.user_set_histogram_bin = source.user_set_histogram_bin
+                self._stored_histogram = copy.deepcopy(source._stored_histogram)
+                self.quantiles = copy.deepcopy(source.quantiles)
 
         # Merge max k mode count
         self._top_k_modes = max(other1._top_k_modes, other2._top_k_modes)
-- 
2.43.0


From e0515f8dbbe607274a24360cf0c96030e738ad71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:44 +0000
Subject: [PATCH 05/69] fix: let merged profiles with a user set bin count be
 reported

The merged histogram methods had no suggested bin count when the bin count came
from the options, so reporting the merged profile raised a KeyError.
---
 dataprofiler/profilers/numerical_column_stats.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index e4cd207..070fc33 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -255,11 +255,12 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
         self._stored_histogram["histogram"]["current_loss"] = aggregate_histogram_loss
         self._stored_histogram["histogram"]["total_loss"] = aggregate_histogram_loss
 
-        if self.user_set_histogram_bin is None:
-            for method in self.histogram_bin_method_names:
-                self.histogram_methods[method][
-                    "suggested_bin_count"
-                ] = histogram_utils._calculate_bins_from_profile(self, method)
+        for method in self.histogram_bin_method_names:
+            self.histogram_methods[method]["suggested_bin_count"] = (
+                histogram_utils._calculate_bins_from_profile(self, method)
+                if self.user_set_histogram_bin is None
+                else self.user_set_histogram_bin
+            )
 
         self._get_quantiles()
 
-- 
2.43.0


From 966576d17ed4133586a4aabf0bc0bff1ba34120c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:44 +0000
Subject: [PATCH 06/69] fix: keep merged histogram counts integral so updates
 still work

A merged profile stored float counts, which made the next update fail inside the
histogram and silently leave histogram, quantiles and median out of date.
---
 dataprofiler/profilers/numerical_column_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index 070fc33..7ff288e 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -223,7 +223,7 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
         )
 
         # Initialize new count by bin object for population
-        new_entity_count_by_bin = np.zeros((ideal_count_of_bins,))
+        new_entity_count_by_bin = np.zeros((ideal_count_of_bins,), dtype=np.int64)
 
         # Generate new histograms
         _, hist_loss1 = self._assimilate_histogram(
-- 
2.43.0


From b80199eea00bb2b7631d2a0f6cc7bc14189c5071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:44 +0000
Subject: [PATCH 07/69] fix: honour a median of exactly zero between two
 histogram bins

---
 dataprofiler/profilers/numerical_column_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index 7ff288e..b51cef2 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -1589,7 +1589,7 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
         quantiles: np.ndarray = np.interp(
             percentiles / 100, cumsum_bin_counts, bin_edges
         )
-        if median_value:
+        if median_value is not None:
             quantiles[percentiles == 50] = median_value
         return cast(List[float], quantiles.tolist())
 
-- 
2.43.0


From 2d0c4431f2130f850772ecd83248dcbf73c0b0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:10 +0000
Subject: [PATCH 08/69] fix: do not change the left profile when merging hll
 row counts

The other sketch was merged into the left operand, which was then shared with the
merged profile, so later reports of either counted rows they never saw.
---
 dataprofiler/profilers/profile_builder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 6e51265..0a2199f 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -1805,8 +1805,8 @@ class StructuredProfiler(BaseProfiler):
                 elif isinstance(self.hashed_row_object, HyperLogLog) and isinstance(
                     other.hashed_row_object, HyperLogLog
                 ):
-                    self.hashed_row_object.merge(other.hashed_row_object),
-                    merged_profile.hashed_row_object = self.hashed_row_object
+                    merged_profile.hashed_row_object.merge(self.hashed_row_object)
+                    merged_profile.hashed_row_object.merge(other.hashed_row_object)
 
         self_to_other_idx = self._get_and_validate_schema_mapping(
             self._col_name_to_idx, other._col_name_to_idx
-- 
2.43.0


From 6e9d54f69650a96dae63625474c2d6d8ef7ffebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:10 +0000
Subject: [PATCH 09/69] fix: forget the index shift of an earlier batch

A shift kept from an overlapping batch was applied to later batches that did not
overlap, so their null rows were not counted in the row statistics.
---
 dataprofiler/profilers/profile_builder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 0a2199f..78daa16 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -442,6 +442,7 @@ class StructuredColProfiler:
         base_nti = base_stats["null_types"]
 
         # Check if indices overlap, if they do, adjust attributes accordingly
+        self._index_shift = None
         if profiler_utils.overlap(self._min_id, self._max_id, base_min, base_max):
             warnings.warn(
                 f"Overlapping indices detected. To resolve, indices "
-- 
2.43.0


From 93edfafc41c6bb22365802a92655f8ab20de74c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:10 +0000
Subject: [PATCH 10/69] fix: compare rows in the column order of the profile

A batch whose columns came in another order hashed equal rows differently, so
the unique and duplicate row counts were wrong.
---
 dataprofiler/profilers/profile_builder.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 78daa16..f719e82 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -3033,7 +3033,13 @@ class StructuredProfiler(BaseProfiler):
             samples_for_row_stats = None
             if min_true_samples not in [None, 0]:
                 samples_for_row_stats = np.concatenate(sample_ids)
-            self._update_row_statistics(data, samples_for_row_stats)
+            # rows are compared across batches: use the column order of the profile
+            col_order = sorted(
+                range(data.shape[1]), key=lambda idx: col_idx_to_prof_idx[idx]
+            )
+            self._update_row_statistics(
+                data.iloc[:, col_order], samples_for_row_stats
+            )
 
         # Calculate metrics specific to capitalone/synthetic-data
         if self.options.null_replication_metrics.is_enabled:
-- 
2.43.0


From 4a821e9a65f3c28bc725964629888d1576db42ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:10 +0000
Subject: [PATCH 11/69] fix: keep the top k categories setting when merging
 categorical columns

---
 dataprofiler/profilers/categorical_column_profile.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dataprofiler/profilers/categorical_column_profile.py b/dataprofiler/profilers/categorical_column_profile.py
index 1ca6309..aa8281a 100644
--- a/dataprofiler/profilers/categorical_column_profile.py
+++ b/dataprofiler/profilers/categorical_column_profile.py
@@ -109,6 +109,12 @@ class CategoricalColumn(BaseColumnProfiler["CategoricalColumn"]):
             merged_profile.__calculations, self.__calculations, other.__calculations
         )
 
+        # Merge max k category count
+        if self._top_k_categories is not None and other._top_k_categories is not None:
+            merged_profile._top_k_categories = max(
+                self._top_k_categories, other._top_k_categories
+            )
+
         if self.cms and other.cms:
 
             assert isinstance(self._cms_max_num_heavy_hitters, int)
-- 
2.43.0


From 3e2a07b779f97c2199dd30b1396ace8ef4f185bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:10 +0000
Subject: [PATCH 12/69] fix: let a merged count min sketch profile take further
 updates

The merged column had no sketch dimensions, so its next update raised.
---
 dataprofiler/profilers/categorical_column_profile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dataprofiler/profilers/categorical_column_profile.py b/dataprofiler/profilers/categorical_column_profile.py
index aa8281a..f888bcf 100644
--- a/dataprofiler/profilers/categorical_column_profile.py
+++ b/dataprofiler/profilers/categorical_column_profile.py
@@ -123,6 +123,8 @@ class CategoricalColumn(BaseColumnProfiler["CategoricalColumn"]):
                 self._cms_max_num_heavy_hitters, other._cms_max_num_heavy_hitters
             )
 
+            merged_profile.cms_num_hashes = self.cms_num_hashes
+            merged_profile.cms_num_buckets = self.cms_num_buckets
             (
                 merged_profile.cms,
                 merged_profile._categories,
-- 
2.43.0


From a1fa4d0f8e2c8641b8f49fe4fd50ed55ae1f0b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:18 +0000
Subject: [PATCH 13/69] fix: update null replication metrics of integer columns
 over several batches

---
 dataprofiler/profilers/profile_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index f719e82..2564d12 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2660,7 +2660,7 @@ class StructuredProfiler(BaseProfiler):
 
                 # np.array for element wise addition
                 old_sum_null = np.asarray(old_sum_null)
-                sum_null += old_sum_null
+                sum_null = sum_null + old_sum_null
 
             sum_not_null = np.delete(total_row_sum, col_id) - sum_null
 
-- 
2.43.0


From 614e52d97818d9db11f4305604086f4d4b318ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:18 +0000
Subject: [PATCH 14/69] fix: merge correlations when some columns are not
 numeric

---
 dataprofiler/profilers/profile_builder.py | 42 ++++++++---------------
 1 file changed, 14 insertions(+), 28 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 2564d12..44f166a 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2406,35 +2406,21 @@ class StructuredProfiler(BaseProfiler):
         if (col_ids1 != col_ids2).any():
             return None
 
-        mean1 = np.array(
-            [
-                self._profile[idx].profile["statistics"]["mean"]
-                for idx in range(len(self._profile))
-                if idx in col_ids1
-            ]
-        )
-        std1 = np.array(
-            [
-                self._profile[idx].profile["statistics"]["stddev"]
-                for idx in range(len(self._profile))
-                if idx in col_ids1
-            ]
-        )
+        # keep one entry per column, as the matrices do
+        def get_stat(profiler: StructuredProfiler, name: str) -> np.ndarray:
+            return np.array(
+                [
+                    profiler._profile[idx].profile["statistics"][name]
+                    if idx in col_ids1
+                    else np.nan
+                    for idx in range(len(profiler._profile))
+                ]
+            )
 
-        mean2 = np.array(
-            [
-                other._profile[idx].profile["statistics"]["mean"]
-                for idx in range(len(self._profile))
-                if idx in col_ids2
-            ]
-        )
-        std2 = np.array(
-            [
-                other._profile[idx].profile["statistics"]["stddev"]
-                for idx in range(len(self._profile))
-                if idx in col_ids2
-            ]
-        )
+        mean1 = get_stat(self, "mean")
+        std1 = get_stat(self, "stddev")
+        mean2 = get_stat(other, "mean")
+        std2 = get_stat(other, "stddev")
         return self._merge_correlation_helper(
             corr_mat1, mean1, std1, n1, corr_mat2, mean2, std2, n2
         )
-- 
2.43.0


From e4926faf38c2acba58bde1e41f8950664dbb56db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:18 +0000
Subject: [PATCH 15/69] fix: merge null replication metrics with empty or
 datetime columns

---
 dataprofiler/profilers/profile_builder.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 44f166a..ea6d152 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2692,7 +2692,7 @@ class StructuredProfiler(BaseProfiler):
         self_row_sum = np.asarray(
             [
                 get_data_type_profiler(profile).sum
-                if get_data_type(profile)
+                if get_data_type(profile) not in [None, "datetime"]
                 else np.nan
                 for profile in self._profile
             ]
@@ -2700,12 +2700,18 @@ class StructuredProfiler(BaseProfiler):
         other_row_sum = np.asarray(
             [
                 get_data_type_profiler(profile).sum
-                if get_data_type(profile)
+                if get_data_type(profile) not in [None, "datetime"]
                 else np.nan
                 for profile in other._profile
             ]
         )
         total_row_sum: np.ndarray = self_row_sum + other_row_sum
+        # a column without any values so far adds nothing to the sum
+        for col_id in range(len(self._profile)):
+            if get_data_type(self._profile[col_id]) is None:
+                total_row_sum[col_id] = other_row_sum[col_id]
+            elif get_data_type(other._profile[col_id]) is None:
+                total_row_sum[col_id] = self_row_sum[col_id]
         merged_properties: dict = defaultdict(dict)
         for col_id in range(len(self._profile)):
             self_profile = self._profile[col_id]
-- 
2.43.0


From eb2c5dedd8ddbb13e54e564c41ff8864650b54cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:27 +0000
Subject: [PATCH 16/69] fix: line up columns by name when merging correlations

---
 dataprofiler/profilers/profile_builder.py | 26 +++++++++++++++--------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index ea6d152..c091afb 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2397,6 +2397,13 @@ class StructuredProfiler(BaseProfiler):
         if corr_mat1 is None or corr_mat2 is None:
             return None
 
+        # line up the columns of the other profile with the ones of this profile
+        self_to_other_idx = self._get_and_validate_schema_mapping(
+            self._col_name_to_idx, other._col_name_to_idx
+        )
+        other_order = [self_to_other_idx[idx] for idx in range(len(self._profile))]
+        corr_mat2 = corr_mat2[np.ix_(other_order, other_order)]
+
         # get column indices without nan
         col_ids1 = np.where(~np.isnan(corr_mat1).all(axis=0))[0]
         col_ids2 = np.where(~np.isnan(corr_mat2).all(axis=0))[0]
@@ -2407,20 +2414,21 @@ class StructuredProfiler(BaseProfiler):
             return None
 
         # keep one entry per column, as the matrices do
-        def get_stat(profiler: StructuredProfiler, name: str) -> np.ndarray:
+        def get_stat(
+            profiles: list[StructuredColProfiler], name: str
+        ) -> np.ndarray:
             return np.array(
                 [
-                    profiler._profile[idx].profile["statistics"][name]
-                    if idx in col_ids1
-                    else np.nan
-                    for idx in range(len(profiler._profile))
+                    profile.profile["statistics"][name] if idx in col_ids1 else np.nan
+                    for idx, profile in enumerate(profiles)
                 ]
             )
 
-        mean1 = get_stat(self, "mean")
-        std1 = get_stat(self, "stddev")
-        mean2 = get_stat(other, "mean")
-        std2 = get_stat(other, "stddev")
+        other_profiles = [other._profile[idx] for idx in other_order]
+        mean1 = get_stat(self._profile, "mean")
+        std1 = get_stat(self._profile, "stddev")
+        mean2 = get_stat(other_profiles, "mean")
+        std2 = get_stat(other_profiles, "stddev")
         return self._merge_correlation_helper(
             corr_mat1, mean1, std1, n1, corr_mat2, mean2, std2, n2
         )
-- 
2.43.0


From 5b75b9e13b2f446bc06f6b744a61f3453e877f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:27 +0000
Subject: [PATCH 17/69] fix: line up columns by name in null replication
 metrics

---
 dataprofiler/profilers/profile_builder.py | 36 ++++++++++++++++++-----
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index c091afb..812a719 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2595,6 +2595,8 @@ class StructuredProfiler(BaseProfiler):
         :type clean_samples: dict
         """
         data = pd.DataFrame(clean_samples).apply(pd.to_numeric, errors="coerce")
+        # sums are kept in the order of the profile, whatever the order of the batch
+        data = data[sorted(data.columns)]
 
         get_data_type = lambda profile: profile.profiles[  # NOQA: E731
             "data_type_profile"
@@ -2697,6 +2699,13 @@ class StructuredProfiler(BaseProfiler):
             "data_type_profile"
         ]._profiles[get_data_type(profile)]
 
+        # line up the columns of the other profile with the ones of this profile
+        self_to_other_idx = self._get_and_validate_schema_mapping(
+            self._col_name_to_idx, other._col_name_to_idx
+        )
+        other_order = [self_to_other_idx[idx] for idx in range(len(self._profile))]
+        other_profiles = [other._profile[idx] for idx in other_order]
+
         self_row_sum = np.asarray(
             [
                 get_data_type_profiler(profile).sum
@@ -2710,7 +2719,7 @@ class StructuredProfiler(BaseProfiler):
                 get_data_type_profiler(profile).sum
                 if get_data_type(profile) not in [None, "datetime"]
                 else np.nan
-                for profile in other._profile
+                for profile in other_profiles
             ]
         )
         total_row_sum: np.ndarray = self_row_sum + other_row_sum
@@ -2718,12 +2727,12 @@ class StructuredProfiler(BaseProfiler):
         for col_id in range(len(self._profile)):
             if get_data_type(self._profile[col_id]) is None:
                 total_row_sum[col_id] = other_row_sum[col_id]
-            elif get_data_type(other._profile[col_id]) is None:
+            elif get_data_type(other_profiles[col_id]) is None:
                 total_row_sum[col_id] = self_row_sum[col_id]
         merged_properties: dict = defaultdict(dict)
         for col_id in range(len(self._profile)):
             self_profile = self._profile[col_id]
-            other_profile = other._profile[col_id]
+            other_profile = other_profiles[col_id]
 
             self_null_count = getattr(self_profile, "null_count")
             other_null_count = getattr(other_profile, "null_count")
@@ -2744,11 +2753,22 @@ class StructuredProfiler(BaseProfiler):
                 if col_id in self._null_replication_metrics
                 else None
             )
-            other_sum_null = (
-                other._null_replication_metrics[col_id]["class_sum"][1]
-                if col_id in other._null_replication_metrics
-                else None
-            )
+            other_sum_null = None
+            other_col_id = other_order[col_id]
+            if other_col_id in other._null_replication_metrics:
+                # the stored sums leave out the column itself
+                other_cols = [
+                    idx for idx in range(len(other_order)) if idx != other_col_id
+                ]
+                other_sums = dict(
+                    zip(
+                        other_cols,
+                        other._null_replication_metrics[other_col_id]["class_sum"][1],
+                    )
+                )
+                other_sum_null = [
+                    other_sums[idx] for idx in other_order if idx != other_col_id
+                ]
             # Initialize zeros array of size (number of columns - 1)
             sum_null = np.zeros(len(self._profile) - 1)
 
-- 
2.43.0


From ccf2be341f263795e875b614d38500bf9bae8a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:27 +0000
Subject: [PATCH 18/69] fix: recognise duplicate rows of profiles whose columns
 are ordered differently

---
 dataprofiler/profilers/profile_builder.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 812a719..c8323d1 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -3053,9 +3053,14 @@ class StructuredProfiler(BaseProfiler):
             samples_for_row_stats = None
             if min_true_samples not in [None, 0]:
                 samples_for_row_stats = np.concatenate(sample_ids)
-            # rows are compared across batches: use the column order of the profile
+            # rows are compared across batches and merged profiles: use an order
+            # which does not depend on the order of the columns in the data
             col_order = sorted(
-                range(data.shape[1]), key=lambda idx: col_idx_to_prof_idx[idx]
+                range(data.shape[1]),
+                key=lambda idx: (
+                    str(data.columns[idx]).lower(),
+                    col_idx_to_prof_idx[idx],
+                ),
             )
             self._update_row_statistics(
                 data.iloc[:, col_order], samples_for_row_stats
-- 
2.43.0


From bd51afec3747016d72f2fd1b98dc2035fb644003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:23 +0000
Subject: [PATCH 19/69] fix: keep the samples of non numeric columns for null
 replication metrics

---
 dataprofiler/profilers/profile_builder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index c8323d1..3373ad5 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -3040,7 +3040,9 @@ class StructuredProfiler(BaseProfiler):
             pool.join()  # Wait for all workers to complete
 
         if self.options.correlation.is_enabled:
-            self._update_correlation(clean_sampled_dict, corr_prev_dependent_properties)
+            self._update_correlation(
+                clean_sampled_dict.copy(), corr_prev_dependent_properties
+            )
 
         if self.options.chi2_homogeneity.is_enabled:
             self.chi2_matrix = self._update_chi2()
-- 
2.43.0


From 490d26354d9f27a1d911aa1d1f5c381025126510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:23 +0000
Subject: [PATCH 20/69] fix: keep correlations through batches with one row, no
 values or constant columns

---
 dataprofiler/profilers/profile_builder.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 3373ad5..f7b12b3 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2337,7 +2337,7 @@ class StructuredProfiler(BaseProfiler):
             adjusted_stds = np.sqrt(
                 batch_properties["std"] ** 2
                 * (batch_properties["count"] - 1)
-                / (len(data) - 1)
+                / max(len(data) - 1, 1)
             )
             batch_properties["std"] = adjusted_stds
         # Set count key to a single number now that everything's been adjusted
@@ -2349,7 +2349,8 @@ class StructuredProfiler(BaseProfiler):
 
         # then, fill in the correlations for valid columns
         rows = [[id] for id in clean_column_ids]
-        corr_mat[rows, clean_column_ids] = np.corrcoef(data, rowvar=False)
+        if not data.empty:
+            corr_mat[rows, clean_column_ids] = np.corrcoef(data, rowvar=False)
 
         return corr_mat
 
@@ -2467,17 +2468,17 @@ class StructuredProfiler(BaseProfiler):
                     dependent_properties["std"][id] = np.sqrt(
                         data_type_profiler._biased_variance
                         * n
-                        / (self.total_samples - self.row_is_null_count - 1)
+                        / max(self.total_samples - self.row_is_null_count - 1, 1)
                     )
                     dependent_properties["count"][id] = n
                 # Finding the properties of the batch data if given
-                elif id in batch.keys():
+                elif len(batch.get(id, [])) > 0:
                     history = data_type_profiler._batch_history[-1]
                     n = history["match_count"]
                     # Since we impute values, we want the total rows (including nulls)
                     dependent_properties["mean"][id] = history["mean"]
                     dependent_properties["std"][id] = np.sqrt(
-                        history["biased_variance"] * n / (n - 1)
+                        history["biased_variance"] * n / max(n - 1, 1)
                     )
                     dependent_properties["count"][id] = n
 
@@ -2525,8 +2526,9 @@ class StructuredProfiler(BaseProfiler):
         mean_diff_vector = mean1 - mean2
         mean_diff_mat = np.outer(mean_diff_vector, mean_diff_vector)
 
-        cov1 = corr_mat1 * std_mat1
-        cov2 = corr_mat2 * std_mat2
+        # values which do not vary have no correlation, their covariance is zero
+        cov1 = np.where(std_mat1 == 0, 0, corr_mat1 * std_mat1)
+        cov2 = np.where(std_mat2 == 0, 0, corr_mat2 * std_mat2)
 
         n = n1 + n2
 
-- 
2.43.0


From c9e3cf7bd7c06c33987ac2739044bc8e2eb77c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:57 +0000
Subject: [PATCH 21/69] fix: do not change the list of omitted keys passed by
 the caller

---
 .../profilers/helpers/report_helpers.py         | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/dataprofiler/profilers/helpers/report_helpers.py b/dataprofiler/profilers/helpers/report_helpers.py
index 0588252..1192574 100644
--- a/dataprofiler/profilers/helpers/report_helpers.py
+++ b/dataprofiler/profilers/helpers/report_helpers.py
@@ -124,15 +124,14 @@ def _prepare_report(
     max_array_len = 5
 
     if output_format == "compact":
-        omit_keys.extend(
-            [
-                "data_stats.*.statistics.times",
-                "data_stats.*.statistics.avg_predictions",
-                "data_stats.*.statistics.data_label_representation",
-                "data_stats.*.statistics.null_types_index",
-                "data_stats.*.statistics.histogram",
-            ]
-        )
+        # the list belongs to the caller, do not extend it in place
+        omit_keys = omit_keys + [
+            "data_stats.*.statistics.times",
+            "data_stats.*.statistics.avg_predictions",
+            "data_stats.*.statistics.data_label_representation",
+            "data_stats.*.statistics.null_types_index",
+            "data_stats.*.statistics.histogram",
+        ]
         output_format = "pretty"
 
     for key in report:
-- 
2.43.0


From 6e04236245d6866ea3122b6b93260a61f3c75efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:57 +0000
Subject: [PATCH 22/69] fix: do not share lists and arrays of the profile with
 its reports

---
 dataprofiler/profilers/helpers/report_helpers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dataprofiler/profilers/helpers/report_helpers.py b/dataprofiler/profilers/helpers/report_helpers.py
index 1192574..2e08e74 100644
--- a/dataprofiler/profilers/helpers/report_helpers.py
+++ b/dataprofiler/profilers/helpers/report_helpers.py
@@ -1,6 +1,7 @@
 """Contains helper functions for generating report."""
 from __future__ import annotations
 
+import copy
 import math
 
 import numpy as np
@@ -258,6 +259,9 @@ def _prepare_report(
             elif output_format == "serializable" and isinstance(value, np.ndarray):
                 fmt_report[key] = value.tolist()
             else:
+                # the report must not share lists with the profile
+                if isinstance(value, list):
+                    value = copy.deepcopy(value)
                 fmt_report[key] = value
 
             if output_format in ["pretty", "serializable", "compact"] and all(
-- 
2.43.0


From 7d831fec791215c085e18a84844464c7878019fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:52 +0000
Subject: [PATCH 23/69] fix: keep the stored histogram apart from the reported
 one

---
 dataprofiler/profilers/numerical_column_stats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index b51cef2..1c3ff17 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -1520,8 +1520,9 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
                 self.histogram_methods[histogram_method]["total_loss"],
             )
         elif len(bin_counts) == suggested_bin_count:
+            # a copy, as both histograms are updated independently later on
             return (
-                self._stored_histogram["histogram"],
+                {"bin_counts": bin_counts, "bin_edges": bin_edges},
                 self._stored_histogram["total_loss"],
             )
 
-- 
2.43.0


From 970944398d0704ed287c2cc61205898d3219208e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:21 +0000
Subject: [PATCH 24/69] fix: diff columns of different types without category
 statistics

---
 dataprofiler/profilers/profile_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index f7b12b3..46b7b0d 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -285,7 +285,7 @@ class StructuredColProfiler:
             }
         )
 
-        unordered_profile["statistics"].update(
+        unordered_profile.setdefault("statistics", {}).update(
             {
                 "sample_size": profiler_utils.find_diff_of_numbers(
                     self.sample_size, other_profile.sample_size
-- 
2.43.0


From de472e372d91514adf127a7f98bb6862c1cb3a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:21 +0000
Subject: [PATCH 25/69] fix: diff categorical columns when one has no values

---
 dataprofiler/profilers/categorical_column_profile.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/categorical_column_profile.py b/dataprofiler/profilers/categorical_column_profile.py
index f888bcf..9f5d3f8 100644
--- a/dataprofiler/profilers/categorical_column_profile.py
+++ b/dataprofiler/profilers/categorical_column_profile.py
@@ -326,8 +326,11 @@ class CategoricalColumn(BaseColumnProfiler["CategoricalColumn"]):
 
             total_psi = 0.0
             for iter_key in self_cat_count.keys():
-                percent_self = self_cat_count[iter_key] / self.sample_size
-                percent_other = other_cat_count[iter_key] / other_profile.sample_size
+                # a profile without samples has none in any category
+                percent_self = self_cat_count[iter_key] / max(self.sample_size, 1)
+                percent_other = other_cat_count[iter_key] / max(
+                    other_profile.sample_size, 1
+                )
                 if (percent_other != 0) and (percent_self != 0):
                     total_psi += (percent_other - percent_self) * math.log(
                         percent_other / percent_self
-- 
2.43.0


From 5dcb7342470578933e9452ae1cc50be57199008a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:36 +0000
Subject: [PATCH 26/69] fix: compare both histograms over the same bins for the
 population stability index

---
 dataprofiler/profilers/numerical_column_stats.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index 1c3ff17..e0930a0 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -710,7 +710,11 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
             len_self_bin_counts = len(self_histogram["bin_counts"])
 
             # re-calculate `self` histogram
-            if len_self_bin_counts != num_psi_bins:
+            if (
+                len_self_bin_counts != num_psi_bins
+                or self_histogram["bin_edges"][0] != min_min_edge
+                or self_histogram["bin_edges"][-1] != max_max_edge
+            ):
                 histogram, hist_loss = self._regenerate_histogram(
                     entity_count_per_bin=self_histogram["bin_counts"],
                     bin_edges=self_histogram["bin_edges"],
@@ -729,7 +733,7 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
             # re-calculate `other_profile` histogram
             histogram_edges_not_equal = False
             all_array_values_equal = np.array_equal(
-                other_histogram["bin_edges"], self_histogram["bin_edges"]
+                other_histogram["bin_edges"], new_self_histogram["bin_edges"]
             )
             if not all_array_values_equal:
                 histogram_edges_not_equal = True
-- 
2.43.0


From 0a35fda872535637a037f732e45a65f8312e8d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:47 +0000
Subject: [PATCH 27/69] fix: let profiles with a count min sketch be saved and
 sent to workers

---
 .../profilers/categorical_column_profile.py         | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/dataprofiler/profilers/categorical_column_profile.py b/dataprofiler/profilers/categorical_column_profile.py
index 9f5d3f8..80c4368 100644
--- a/dataprofiler/profilers/categorical_column_profile.py
+++ b/dataprofiler/profilers/categorical_column_profile.py
@@ -86,6 +86,19 @@ class CategoricalColumn(BaseColumnProfiler["CategoricalColumn"]):
                     self.cms_num_hashes, self.cms_num_buckets
                 )
 
+    def __getstate__(self) -> dict:
+        """Return a picklable state, the count min sketch as its bytes."""
+        state = self.__dict__.copy()
+        if self.cms is not None:
+            state["cms"] = self.cms.serialize()
+        return state
+
+    def __setstate__(self, state: dict) -> None:
+        """Restore the state, the count min sketch from its bytes."""
+        self.__dict__.update(state)
+        if self.cms is not None:
+            self.cms = datasketches.count_min_sketch.deserialize(self.cms)
+
     def __add__(self, other: CategoricalColumn) -> CategoricalColumn:
         """
         Merge the properties of two CategoricalColumn profiles.
-- 
2.43.0


From aa6f71e15f91447513c60eea164bc640ba6816aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:01 +0000
Subject: [PATCH 28/69] fix: count unique rows with hll when column names
 repeat

---
 dataprofiler/profilers/profile_builder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 46b7b0d..0f1a6da 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2237,6 +2237,9 @@ class StructuredProfiler(BaseProfiler):
                     )
             elif isinstance(self.hashed_row_object, HyperLogLog):
                 batch_size = 2048
+                if not data.columns.is_unique:
+                    # records are keyed by column name, which must be unique
+                    data = data.set_axis(range(data.shape[1]), axis=1)
 
                 for batch_ind in range(len(data) // batch_size + 1):
                     start_ind = batch_ind * batch_size
-- 
2.43.0


From 3923e4fd355c4647c6e3a9469b1d809166267ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:02 +0000
Subject: [PATCH 29/69] fix: keep the null ratio over all batches and merges

---
 dataprofiler/profilers/profile_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 0f1a6da..c0c28f8 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -432,7 +432,7 @@ class StructuredColProfiler:
         self._last_batch_size = base_stats["sample_size"]
         self.sample = base_stats["sample"]
         self.null_count += base_stats["null_count"]
-        self.null_ratio = base_stats["null_count"] / base_stats["sample_size"]
+        self.null_ratio = self.null_count / self.sample_size
         self.null_types = profiler_utils._combine_unique_sets(
             self.null_types, list(base_stats["null_types"].keys())
         )
-- 
2.43.0


From 5145b1cddda11d96d67cf390681f2103dffc4d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:52 +0000
Subject: [PATCH 30/69] fix: handle repeated row labels when separating null
 values

---
 dataprofiler/profilers/profile_builder.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index c0c28f8..1e71f73 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -617,7 +617,8 @@ class StructuredColProfiler:
             )
 
         na_columns: dict = dict()
-        true_sample_set = set()
+        # positions rather than labels, as labels may repeat
+        true_sample_list: list[int] = []
         total_sample_size = 0
         query = "|".join(null_values.keys())
         regex = f"^(?:{(query)})$"
@@ -631,7 +632,9 @@ class StructuredColProfiler:
             matches = df_subset.str.match(regex, flags=re.IGNORECASE)
 
             # Split series into None samples and true samples
-            true_sample_set.update(df_subset[~matches].index)
+            true_sample_list.extend(
+                ind for ind, is_na in zip(chunked_sample_ids, matches) if not is_na
+            )
 
             # Iterate over all the Nones
             for index, cell in df_subset[matches].items():
@@ -640,7 +643,7 @@ class StructuredColProfiler:
             # Ensure minimum number of true samples met
             # and if total_sample_size >= sample size, exit
             if (
-                len(true_sample_set) >= min_true_samples
+                len(true_sample_list) >= min_true_samples
                 and total_sample_size >= sample_size
             ):
                 break
@@ -649,15 +652,8 @@ class StructuredColProfiler:
         if sample_ids is None:
             sample_ind_generator.close()
 
-        # If min_true_samples exists, sort
-        true_sample_list = (
-            sorted(true_sample_set)
-            if min_true_samples > 0 or sample_ids is None
-            else list(true_sample_set)
-        )
-
-        # Split out true values for later utilization
-        df_series = df_series.loc[true_sample_list]
+        # Split out true values for later utilization, in the order of the data
+        df_series = df_series.iloc[sorted(true_sample_list)]
         total_na = total_sample_size - len(true_sample_list)
 
         rng = rng_utils.get_random_number_generator()
-- 
2.43.0


From 08fbfca2f997303113bfa056b7f829265a01213e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:48 +0000
Subject: [PATCH 31/69] fix: save correlations and null replication metrics
 with a pickled profile

---
 dataprofiler/profilers/profile_builder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 1e71f73..20503bb 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -3095,7 +3095,9 @@ class StructuredProfiler(BaseProfiler):
                 "_samples_per_update": self._samples_per_update,
                 "_min_true_samples": self._min_true_samples,
                 "options": self.options,
+                "correlation_matrix": self.correlation_matrix,
                 "chi2_matrix": self.chi2_matrix,
+                "_null_replication_metrics": self._null_replication_metrics,
                 "_profile": self.profile,
                 "_col_name_to_idx": self._col_name_to_idx,
                 "times": self.times,
-- 
2.43.0


From 4150a18c20b9cd182d32190d286a2942b4edca31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:48 +0000
Subject: [PATCH 32/69] fix: restore the data labelers when saving a profile
 fails

---
 dataprofiler/profilers/profile_builder.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 20503bb..7d379fa 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -1128,12 +1128,13 @@ class BaseProfiler:
         # add profiler class to data_dict
         data_dict["profiler_class"] = self.__class__.__name__
 
-        # Pickle and save profile to disk
-        with open(filepath, "wb") as outfile:
-            pickle.dump(data_dict, outfile)
-
-        # Restore all data labelers
-        self._restore_data_labelers(data_labelers)
+        try:
+            # Pickle and save profile to disk
+            with open(filepath, "wb") as outfile:
+                pickle.dump(data_dict, outfile)
+        finally:
+            # Restore all data labelers
+            self._restore_data_labelers(data_labelers)
 
     def _json_save_helper(self, filepath: str | None) -> None:
         """
-- 
2.43.0


From 1ee11da073d3718853569ae3e767d3064406efde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:26 +0000
Subject: [PATCH 33/69] fix: report a file that cannot be loaded as pickle when
 pickle was asked for

---
 dataprofiler/profilers/profile_builder.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 7d379fa..42b24d1 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -1193,10 +1193,10 @@ class BaseProfiler:
         except pickle.UnpicklingError:
             if load_method == "pickle":
                 raise ValueError("File is unable to be loaded as pickle.")
-        finally:
-            if data is None or load_method == "json":
-                with open(filepath) as infile:
-                    return load_profiler(json.load(infile), {})
+
+        if data is None or load_method == "json":
+            with open(filepath) as infile:
+                return load_profiler(json.load(infile), {})
 
         # remove profiler class if it exists
         profiler_class: str | None = data.pop("profiler_class", None)
-- 
2.43.0


From 7e66b44733bf07fa599c29eab980689605e727d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:01 +0000
Subject: [PATCH 34/69] fix: keep the sampling settings of a pickled profile

---
 dataprofiler/profilers/profile_builder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 42b24d1..2311a14 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -1607,6 +1607,8 @@ class UnstructuredProfiler(BaseProfiler):
                 "file_type": self.file_type,
                 "_samples_per_update": self._samples_per_update,
                 "_min_true_samples": self._min_true_samples,
+                "_sampling_ratio": self._sampling_ratio,
+                "_min_sample_size": self._min_sample_size,
                 "_empty_line_count": self._empty_line_count,
                 "memory_size": self.memory_size,
                 "options": self.options,
@@ -3095,6 +3097,8 @@ class StructuredProfiler(BaseProfiler):
                 "hashed_row_object": self.hashed_row_object,
                 "_samples_per_update": self._samples_per_update,
                 "_min_true_samples": self._min_true_samples,
+                "_sampling_ratio": self._sampling_ratio,
+                "_min_sample_size": self._min_sample_size,
                 "options": self.options,
                 "correlation_matrix": self.correlation_matrix,
                 "chi2_matrix": self.chi2_matrix,
-- 
2.43.0


From ab3f9ac314f59d8d9b5a6a0de41f542805a5b19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:01 +0000
Subject: [PATCH 35/69] fix: load null replication metrics of a profile saved
 as JSON

---
 dataprofiler/profilers/profile_builder.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 2311a14..671b395 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2135,6 +2135,11 @@ class StructuredProfiler(BaseProfiler):
         except Exception:
             data["_col_name_to_idx"] = defaultdict(list, data["_col_name_to_idx"])
 
+        if data.get("_null_replication_metrics") is not None:
+            data["_null_replication_metrics"] = {
+                int(k): v for k, v in data["_null_replication_metrics"].items()
+            }
+
         data["hashed_row_object"] = {
             int(k): v for k, v in data["hashed_row_object"].items()
         }
-- 
2.43.0


From 15df83aa11a9bfa5b7e015f385d33a6fd7831890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:01 +0000
Subject: [PATCH 36/69] fix: apply column null values to the same column when a
 batch is reordered

---
 dataprofiler/profilers/profile_builder.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 671b395..3652d59 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2947,7 +2947,7 @@ class StructuredProfiler(BaseProfiler):
                     null_values: dict = self._profile[prof_idx]._null_values.copy()
                     if self.options.column_null_values:
                         null_values.update(
-                            self.options.column_null_values.get(col_idx, {})
+                            self.options.column_null_values.get(prof_idx, {})
                         )
 
                     multi_process_dict[col_idx] = pool.apply_async(
@@ -2993,7 +2993,7 @@ class StructuredProfiler(BaseProfiler):
                     null_values = self._profile[prof_idx]._null_values.copy()
                     if self.options.column_null_values:
                         null_values.update(
-                            self.options.column_null_values.get(col_idx, {})
+                            self.options.column_null_values.get(prof_idx, {})
                         )
 
                     clean_sampled_dict[prof_idx], base_stats = self._profile[
@@ -3016,7 +3016,7 @@ class StructuredProfiler(BaseProfiler):
 
                 null_values = self._profile[prof_idx]._null_values.copy()
                 if self.options.column_null_values:
-                    null_values.update(self.options.column_null_values.get(col_idx, {}))
+                    null_values.update(self.options.column_null_values.get(prof_idx, {}))
 
                 clean_sampled_dict[prof_idx], base_stats = self._profile[
                     prof_idx
-- 
2.43.0


From efdecf6a8632383d65c13bd02bdf6ba14edd6f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:07 +0000
Subject: [PATCH 37/69] fix: match null values with their own regex flags

---
 dataprofiler/profilers/profile_builder.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 3652d59..7583ecb 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -620,7 +620,14 @@ class StructuredColProfiler:
         # positions rather than labels, as labels may repeat
         true_sample_list: list[int] = []
         total_sample_size = 0
-        query = "|".join(null_values.keys())
+        # every null value is matched with its own regex flags
+        flag_letters = {"i": re.I, "m": re.M, "s": re.S, "x": re.X}
+        query = "|".join(
+            "(?{}:{})".format(
+                "".join(char for char, bit in flag_letters.items() if flag & bit), key
+            )
+            for key, flag in null_values.items()
+        )
         regex = f"^(?:{(query)})$"
         for chunked_sample_ids in sample_ind_generator:
             total_sample_size += len(chunked_sample_ids)
@@ -629,7 +636,7 @@ class StructuredColProfiler:
             df_subset = df_series.iloc[chunked_sample_ids]
 
             # Query should search entire cell for all elements at once
-            matches = df_subset.str.match(regex, flags=re.IGNORECASE)
+            matches = df_subset.str.match(regex)
 
             # Split series into None samples and true samples
             true_sample_list.extend(
-- 
2.43.0


From 9ddc9364dab28d339c1e0c151e68708186b5c6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:07 +0000
Subject: [PATCH 38/69] fix: load null value options of a profile saved as JSON

---
 dataprofiler/profilers/profiler_options.py | 27 ++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/dataprofiler/profilers/profiler_options.py b/dataprofiler/profilers/profiler_options.py
index 038acf8..c90f154 100644
--- a/dataprofiler/profilers/profiler_options.py
+++ b/dataprofiler/profilers/profiler_options.py
@@ -1488,6 +1488,33 @@ class StructuredOptions(BaseOption["StructuredOptions"]):
         self.column_null_values = column_null_values
         self.sampling_ratio = sampling_ratio
 
+    @classmethod
+    def load_from_dict(cls, data, config: dict | None = None) -> StructuredOptions:
+        """
+        Parse attribute from json dictionary into self.
+
+        :param data: dictionary with attributes and values.
+        :type data: dict[string, Any]
+        :param config: config to override loading options params from dictionary
+        :type config: Dict | None
+
+        :return: Options with attributes populated.
+        :rtype: StructuredOptions
+        """
+        options = cast(StructuredOptions, super().load_from_dict(data, config))
+
+        # json stores regex flags as int and dictionary keys as str
+        if options.null_values is not None:
+            options.null_values = {
+                key: re.RegexFlag(flag) for key, flag in options.null_values.items()
+            }
+        if options.column_null_values is not None:
+            options.column_null_values = {
+                int(col_idx): {key: re.RegexFlag(flag) for key, flag in values.items()}
+                for col_idx, values in options.column_null_values.items()
+            }
+        return options
+
     @property
     def enabled_profiles(self) -> list[str]:
         """Return a list of the enabled profilers for columns."""
-- 
2.43.0


From b9c1483182708f2d96dc4c4835e2410bc147a0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:31 +0000
Subject: [PATCH 39/69] fix: keep the kind of column names of a profile saved
 as JSON

---
 dataprofiler/profilers/profile_builder.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 7583ecb..2081160 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2135,13 +2135,6 @@ class StructuredProfiler(BaseProfiler):
             data["chi2_matrix"] = np.array(data["chi2_matrix"])
         if data["correlation_matrix"] is not None:
             data["correlation_matrix"] = np.array(data["correlation_matrix"])
-        try:
-            data["_col_name_to_idx"] = defaultdict(
-                list, {int(k): v for k, v in data["_col_name_to_idx"].items()}
-            )
-        except Exception:
-            data["_col_name_to_idx"] = defaultdict(list, data["_col_name_to_idx"])
-
         if data.get("_null_replication_metrics") is not None:
             data["_null_replication_metrics"] = {
                 int(k): v for k, v in data["_null_replication_metrics"].items()
@@ -2153,6 +2146,13 @@ class StructuredProfiler(BaseProfiler):
 
         structured_profiler = super().load_from_dict(data, config)
 
+        # json turns all keys into strings, the columns know their actual names
+        col_name_to_idx: dict[str | int, list[int]] = defaultdict(list)
+        for idx, col in enumerate(structured_profiler._profile):
+            name = col.name.lower() if isinstance(col.name, str) else col.name
+            col_name_to_idx[name].append(idx)
+        structured_profiler._col_name_to_idx = col_name_to_idx
+
         return structured_profiler
 
     def _get_unique_row_ratio(self) -> float | None:
-- 
2.43.0


From 692c4a6b3b85feb8a32f116476399d6db3718110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:40 +0000
Subject: [PATCH 40/69] fix: merge data labels with a column that has no
 samples yet

---
 dataprofiler/profilers/data_labeler_column_profile.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dataprofiler/profilers/data_labeler_column_profile.py b/dataprofiler/profilers/data_labeler_column_profile.py
index d9bfe1e..2e11016 100644
--- a/dataprofiler/profilers/data_labeler_column_profile.py
+++ b/dataprofiler/profilers/data_labeler_column_profile.py
@@ -181,15 +181,16 @@ class DataLabelerColumn(BaseColumnProfiler["DataLabelerColumn"]):
 
         # Combine rank distribution
         if self.sample_size or other.sample_size:
+            # via the properties, as a profile without any samples yet has none
             merged_profile._rank_distribution = {
-                key: self._rank_distribution.get(key, 0)
-                + other._rank_distribution.get(key, 0)
-                for key in set(self._rank_distribution) | set(other._rank_distribution)
+                key: self.rank_distribution.get(key, 0)
+                + other.rank_distribution.get(key, 0)
+                for key in {**self.rank_distribution, **other.rank_distribution}
             }
 
             # Combine Sum Predictions
             merged_profile._sum_predictions = (
-                self._sum_predictions + other._sum_predictions
+                self.sum_predictions + other.sum_predictions
             )
         return merged_profile
 
-- 
2.43.0


From 4a5012acd4c9914cfd04307f453d2e9d151001e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:58 +0000
Subject: [PATCH 41/69] fix: save profiles with integer column names as JSON

---
 dataprofiler/profilers/profile_builder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 2081160..990d5bf 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2852,6 +2852,8 @@ class StructuredProfiler(BaseProfiler):
             # Pandas columns are int by default, but need to fuzzy match strs
             if isinstance(col, str):
                 col = col.lower()
+            elif isinstance(col, np.integer):
+                col = int(col)  # equal, but numpy types cannot be saved as json keys
             mapping_given[col].append(col_idx)
 
         # Validate schema compatibility and index mapping from data to _profile
-- 
2.43.0


From 398e6c24ea5a01d75a5441b670b1c9334360364e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:44 +0000
Subject: [PATCH 42/69] fix: choose a pool size when the number of CPUs is
 unknown

---
 dataprofiler/profilers/profiler_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/profiler_utils.py b/dataprofiler/profilers/profiler_utils.py
index e38e1b0..417f8c5 100644
--- a/dataprofiler/profilers/profiler_utils.py
+++ b/dataprofiler/profilers/profiler_utils.py
@@ -230,7 +230,8 @@ def suggest_pool_size(data_size: int = None, cols: int = None) -> int | None:
 
     try:
         # Determine safest level of processes based on CPUs
-        max_pool_cpu = psutil.cpu_count() - 1
+        # psutil gives None if the number of CPUs cannot be determined
+        max_pool_cpu = (psutil.cpu_count() or 2) - 1
     except NotImplementedError:
         max_pool_cpu = 1
 
-- 
2.43.0


From ca36b583f9954e92b083101edc3528d0634661ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:09 +0000
Subject: [PATCH 43/69] fix: do not take an unreadable file for one that is not
 parquet

---
 dataprofiler/data_readers/parquet_data.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/dataprofiler/data_readers/parquet_data.py b/dataprofiler/data_readers/parquet_data.py
index 4fa567b..ec3798f 100644
--- a/dataprofiler/data_readers/parquet_data.py
+++ b/dataprofiler/data_readers/parquet_data.py
@@ -151,12 +151,15 @@ class ParquetData(SpreadSheetDataMixin, BaseData):
         try:
             pfile = pq.ParquetFile(file_path)  # NOQA
             is_valid_parquet = True
-        except Exception:
+        except Exception as error:
+            # a file which could not be read may still be a parquet file
+            if isinstance(error, OSError) and error.errno is not None:
+                raise
             is_valid_parquet = False
-
-        # return to original position in stream
-        if data_utils.is_stream_buffer(file_path):
-            file_path.seek(starting_location, 0)
+        finally:
+            # return to original position in stream
+            if data_utils.is_stream_buffer(file_path):
+                file_path.seek(starting_location, 0)
 
         return is_valid_parquet
 
-- 
2.43.0


From 54255f54c1ae33378089bd54c9e552c46292c175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:09 +0000
Subject: [PATCH 44/69] fix: detect the file encoding again after a failed read

---
 dataprofiler/data_readers/base_data.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dataprofiler/data_readers/base_data.py b/dataprofiler/data_readers/base_data.py
index 27d8d5d..af1c2ff 100644
--- a/dataprofiler/data_readers/base_data.py
+++ b/dataprofiler/data_readers/base_data.py
@@ -115,13 +115,11 @@ class BaseData:
             finally:
                 if file_encoding.lower() in ["ansi_x3.4-1968", "ascii"]:
                     file_encoding = "utf-8"
-            self._file_encoding = file_encoding
 
             # set to default, detect if not StringIO
             if self.input_file_path and not isinstance(self.input_file_path, StringIO):
-                self._file_encoding = data_utils.detect_file_encoding(
-                    self.input_file_path
-                )
+                file_encoding = data_utils.detect_file_encoding(self.input_file_path)
+            self._file_encoding = file_encoding
         return self._file_encoding
 
     @file_encoding.setter
-- 
2.43.0


From 4acc2b1036c3491da83ae4c325569b04d7a8457d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:09 +0000
Subject: [PATCH 45/69] fix: leave the caller's buffer open and rewound after
 reading a csv

---
 dataprofiler/data_readers/data_utils.py | 30 ++++++++++++++-----------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/dataprofiler/data_readers/data_utils.py b/dataprofiler/data_readers/data_utils.py
index 611d25d..f1d1825 100644
--- a/dataprofiler/data_readers/data_utils.py
+++ b/dataprofiler/data_readers/data_utils.py
@@ -413,6 +413,7 @@ def read_csv_df(
         args["usecols"] = selected_columns
 
     # account for py3.6 requirement for pandas, can remove if >= py3.7
+    input_file = file_path
     is_buf_wrapped = False
     is_file_open = False
     if isinstance(file_path, BytesIO):
@@ -424,19 +425,22 @@ def read_csv_df(
         file_path = open(file_path, encoding=encoding)
         is_file_open = True
 
-    file_data = file_path
-    if sample_nrows:
-        file_data = rsample(file_path, sample_nrows, args)
-    fo = pd.read_csv(file_data, **args)
-    data = fo.read()
-
-    # if the buffer was wrapped, detach it before returning
-    if is_buf_wrapped:
-        file_path = cast(TextIOWrapper, file_path)
-        file_path.detach()
-    elif is_file_open:
-        file_path.close()
-    fo.close()
+    try:
+        file_data = file_path
+        if sample_nrows:
+            file_data = rsample(file_path, sample_nrows, args)
+        with pd.read_csv(file_data, **args) as fo:
+            data = fo.read()
+    finally:
+        # if the buffer was wrapped, detach it before returning
+        if is_buf_wrapped:
+            file_path = cast(TextIOWrapper, file_path)
+            file_path.detach()
+        elif is_file_open:
+            file_path.close()
+        # leave buffers as they are left by FileOrBufferHandler
+        if is_stream_buffer(input_file):
+            input_file.seek(0)
 
     return data
 
-- 
2.43.0


From b1a95cc7520c3e3dc5a45815e132a49608638c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:09 +0000
Subject: [PATCH 46/69] fix: do not guess another encoding when a file cannot
 be read

---
 dataprofiler/data_readers/data_utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dataprofiler/data_readers/data_utils.py b/dataprofiler/data_readers/data_utils.py
index f1d1825..9d476bf 100644
--- a/dataprofiler/data_readers/data_utils.py
+++ b/dataprofiler/data_readers/data_utils.py
@@ -627,6 +627,9 @@ def detect_file_encoding(
             with FileOrBufferHandler(file_path, encoding=encoding) as input_file:
                 input_file.read(1024 * 1024)
                 return True
+        except OSError:
+            # the file could not be read, which says nothing on its encoding
+            raise
         except Exception:
             return False
 
@@ -669,6 +672,8 @@ def detect_file_encoding(
                 if best_result:
                     encoding = best_result.encoding
 
+        except OSError:
+            raise
         except Exception:
             logger.info(
                 "Install charset_normalizer for improved file " "encoding detection"
-- 
2.43.0


From fc7b37ec4b6b333c7769cc01c586b8db87594169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:28 +0000
Subject: [PATCH 47/69] fix: sample whole records of a csv with newlines in
 quoted values

---
 dataprofiler/data_readers/data_utils.py | 51 ++++++++++++++++++++++---
 1 file changed, 46 insertions(+), 5 deletions(-)

diff --git a/dataprofiler/data_readers/data_utils.py b/dataprofiler/data_readers/data_utils.py
index 9d476bf..76933b2 100644
--- a/dataprofiler/data_readers/data_utils.py
+++ b/dataprofiler/data_readers/data_utils.py
@@ -13,6 +13,7 @@ from typing import (
     Any,
     Dict,
     Generator,
+    Iterable,
     Iterator,
     List,
     Optional,
@@ -276,12 +277,12 @@ def read_json(
     return lines
 
 
-def reservoir(file: TextIOWrapper, sample_nrows: int) -> list:
+def reservoir(file: Iterable[str], sample_nrows: int) -> list:
     """
     Implement the mathematical logic of Reservoir sampling.
 
-    :param file: wrapper of the opened csv file
-    :type file: TextIOWrapper
+    :param file: wrapper of the opened csv file or generator on its records
+    :type file: Iterable[str]
     :param sample_nrows: number of rows to sample
     :type sample_nrows: int
 
@@ -343,6 +344,45 @@ def reservoir(file: TextIOWrapper, sample_nrows: int) -> list:
     return values
 
 
+def csv_records(
+    file: Iterable[str], delimiter: Optional[str] = None, quotechar: str = '"'
+) -> Generator[str, None, None]:
+    """
+    Take an opened csv file and return a generator on the text of its records.
+
+    A record spans several lines if one of its quoted values has a newline.
+
+    :param file: wrapper of the opened csv file
+    :type file: Iterable[str]
+    :param delimiter: character used to separate csv values.
+    :type delimiter: str
+    :param quotechar: character used to quote csv values.
+    :type quotechar: str
+    :return: record from the file
+    :rtype: generator
+    """
+    delimiter = delimiter or ","
+    record: List[str] = []
+    in_quotes = False
+    for line in file:
+        record.append(line)
+        if in_quotes or quotechar in line:
+            value_start, quote_closed = not in_quotes, False
+            for char in line:
+                if in_quotes:
+                    in_quotes = char != quotechar
+                    quote_closed = not in_quotes
+                else:
+                    # quotes are only special as the start of a value or doubled
+                    in_quotes = char == quotechar and (value_start or quote_closed)
+                    value_start, quote_closed = char == delimiter, False
+        if not in_quotes:
+            yield "".join(record)
+            record = []
+    if record:
+        yield "".join(record)
+
+
 def rsample(file_path: TextIOWrapper, sample_nrows: int, args: dict) -> StringIO:
     """
     Implement Reservoir Sampling to sample n rows out of a total of M rows.
@@ -356,12 +396,13 @@ def rsample(file_path: TextIOWrapper, sample_nrows: int, args: dict) -> StringIO
     """
     header = args["header"]
     result = []
+    records = csv_records(file_path, args["delimiter"])
 
     if header is not None:
-        result = [[next(file_path) for i in range(header + 1)][-1]]
+        result = [[next(records) for i in range(header + 1)][-1]]
         args["header"] = 0
 
-    result += reservoir(file_path, sample_nrows)
+    result += reservoir(records, sample_nrows)
 
     fo = StringIO("".join([i if (i[-1] == "\n") else i + "\n" for i in result]))
     return fo
-- 
2.43.0


From cff805a5c921a67053e2c30a660a7ca3d90b1a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:43 +0000
Subject: [PATCH 48/69] fix: draw samples and batches with the seeded random
 number generator

---
 dataprofiler/data_readers/base_data.py    |  6 +++---
 dataprofiler/data_readers/csv_data.py     |  9 +++++----
 dataprofiler/data_readers/data_utils.py   |  4 ++--
 dataprofiler/profilers/profile_builder.py |  2 +-
 dataprofiler/rng_utils.py                 | 17 +++++++++++++++++
 5 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/dataprofiler/data_readers/base_data.py b/dataprofiler/data_readers/base_data.py
index af1c2ff..0b6ba49 100644
--- a/dataprofiler/data_readers/base_data.py
+++ b/dataprofiler/data_readers/base_data.py
@@ -5,10 +5,9 @@ from collections import OrderedDict
 from io import StringIO
 from typing import Any, Dict, Generator, List, Optional, Union
 
-import numpy as np
 import pandas as pd
 
-from .. import dp_logging
+from .. import dp_logging, rng_utils
 from . import data_utils
 
 logger = dp_logging.get_child_logger(__name__)
@@ -152,7 +151,8 @@ class BaseData:
     ) -> Generator[Union[pd.DataFrame, List], None, None]:
         """Get batch generator."""
         data_length = len(self.data)
-        indices = np.random.permutation(data_length)
+        rng = rng_utils.get_random_number_generator()
+        indices = rng.permutation(data_length)
         for i in range(0, data_length, batch_size):
             if isinstance(self.data, pd.DataFrame):
                 yield self.data.iloc[indices[i : i + batch_size], :]
diff --git a/dataprofiler/data_readers/csv_data.py b/dataprofiler/data_readers/csv_data.py
index 7e13d40..aae7d3c 100644
--- a/dataprofiler/data_readers/csv_data.py
+++ b/dataprofiler/data_readers/csv_data.py
@@ -1,6 +1,5 @@
 """Contains class that saves and loads spreadsheet data."""
 import csv
-import random
 import re
 from collections import Counter
 from io import StringIO
@@ -9,6 +8,7 @@ from typing import Dict, List, Optional, Tuple, Union, cast
 import numpy as np
 import pandas as pd
 
+from .. import rng_utils
 from . import data_utils
 from .avro_data import AVROData
 from .base_data import BaseData
@@ -255,9 +255,10 @@ class CSVData(SpreadSheetDataMixin, BaseData):
             proposed_dataset = data_as_str.split("\n")
             if len(proposed_dataset) > 25:
                 sample_count = min(int(0.1 * (len(proposed_dataset) - 25)), 1000)
-                proposed_dataset = proposed_dataset[:25] + random.choices(
-                    proposed_dataset[:25], k=sample_count
-                )
+                rng = rng_utils.get_random_number_generator()
+                proposed_dataset = proposed_dataset[:25] + [
+                    proposed_dataset[i] for i in rng.integers(25, size=sample_count)
+                ]
 
             # Reverse to start at bottom where likely the most columns
             # Fewer columns are okay, as long as earlier in file
diff --git a/dataprofiler/data_readers/data_utils.py b/dataprofiler/data_readers/data_utils.py
index 76933b2..3301c49 100644
--- a/dataprofiler/data_readers/data_utils.py
+++ b/dataprofiler/data_readers/data_utils.py
@@ -2,7 +2,6 @@
 import json
 import logging
 import os
-import random
 import re
 import urllib
 from collections import OrderedDict
@@ -548,7 +547,8 @@ def sample_parquet(
     n_rows = parquet_table.num_rows
     if n_rows > sample_nrows:
         sample_index = np.array([False] * n_rows)
-        sample_index[random.sample(range(n_rows), sample_nrows)] = True
+        rng = rng_utils.get_random_number_generator()
+        sample_index[rng.choice(n_rows, sample_nrows, replace=False)] = True
     else:
         sample_index = np.array([True] * n_rows)
     sample_df = parquet_table.filter(sample_index).to_pandas()
diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 990d5bf..cd6004f 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -246,7 +246,7 @@ class StructuredColProfiler:
             }
         )
         samples = list(dict.fromkeys(self.sample + other.sample))
-        merged_profile.sample = random.sample(samples, min(len(samples), 5))
+        merged_profile.sample = rng_utils.sample_list(samples, 5)
         for profile_name in self.profiles:
             merged_profile.profiles[profile_name] = (
                 self.profiles[profile_name] + other.profiles[profile_name]
diff --git a/dataprofiler/rng_utils.py b/dataprofiler/rng_utils.py
index 3290666..dd77bd7 100644
--- a/dataprofiler/rng_utils.py
+++ b/dataprofiler/rng_utils.py
@@ -1,6 +1,7 @@
 """Create a random number generator using a manual seed DATAPROFILER_SEED."""
 import os
 import warnings
+from typing import List
 
 import numpy as np
 
@@ -17,3 +18,19 @@ def get_random_number_generator() -> np.random._generator.Generator:
         except ValueError:
             warnings.warn("Seed should be an integer", RuntimeWarning)
     return rng
+
+
+def sample_list(values: List, max_size: int) -> List:
+    """
+    Choose up to `max_size` values of a list without replacement.
+
+    :param values: list to choose from
+    :type values: list
+    :param max_size: maximum number of values to choose
+    :type max_size: int
+    :return: chosen values
+    :rtype: list
+    """
+    rng = get_random_number_generator()
+    size = min(len(values), max_size)
+    return [values[i] for i in rng.choice(len(values), size, replace=False)]
-- 
2.43.0


From 7fcbdc4709abde0bcd517fccb5545a03f145b068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:27 +0000
Subject: [PATCH 49/69] fix: leave out the stop words of either text profile
 when merging

---
 dataprofiler/profilers/unstructured_text_profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/unstructured_text_profile.py b/dataprofiler/profilers/unstructured_text_profile.py
index 96b7d06..98f7377 100644
--- a/dataprofiler/profilers/unstructured_text_profile.py
+++ b/dataprofiler/profilers/unstructured_text_profile.py
@@ -503,7 +503,7 @@ class TextProfiler:
 
         # remove stop words
         merged_profile._stop_words = self._stop_words.union(other._stop_words)
-        if len(merged_profile._stop_words) != len(self._stop_words):
+        if self._stop_words != other._stop_words:
             for w in list(merged_profile.word_count.keys()):
                 if w.lower() in merged_profile._stop_words:
                     merged_profile.word_count.pop(w)
-- 
2.43.0


From 61c6df79f14f7f5f56a96d14e1bf30d31a5cef0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:27 +0000
Subject: [PATCH 50/69] fix: add up the counts of all spellings when diffing
 text profiles of different case sensitivity

---
 .../profilers/unstructured_text_profile.py    | 33 ++++++++++++++-----
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/dataprofiler/profilers/unstructured_text_profile.py b/dataprofiler/profilers/unstructured_text_profile.py
index 98f7377..c936069 100644
--- a/dataprofiler/profilers/unstructured_text_profile.py
+++ b/dataprofiler/profilers/unstructured_text_profile.py
@@ -578,6 +578,20 @@ class TextProfiler:
 
         return merged_profile
 
+    @staticmethod
+    def _lower_case_words(word_count: Counter) -> Counter:
+        """
+        Count words irrespective of their case.
+
+        :param word_count: case sensitive word count
+        :type word_count: Counter()
+        :return: word count with the counts of all spellings added up
+        """
+        lower_word_count: Counter = Counter()
+        for word, count in word_count.items():
+            lower_word_count[word.lower()] += count
+        return lower_word_count
+
     def diff(self, other_profile: TextProfiler, options: dict = None) -> dict:
         """
         Find the differences for two unstructured text profiles.
@@ -596,18 +610,19 @@ class TextProfiler:
                 "and '{}'".format(cls.__name__, other_profile.__class__.__name__)
             )
 
-        self_words = list(self.word_count.keys())
-        self_word_count = dict(self.word_count.most_common(self._top_k_words))
-
-        other_words = list(other_profile.word_count.keys())
-        other_word_count = dict(other_profile.word_count.most_common(self._top_k_words))
+        self_count = self.word_count
+        other_count = other_profile.word_count
 
         if self._is_case_sensitive and not other_profile._is_case_sensitive:
-            self_words = [each_string.lower() for each_string in self_words]
-            self_word_count = {k.lower(): v for k, v in self_word_count.items()}
+            self_count = self._lower_case_words(self_count)
         if not self._is_case_sensitive and other_profile._is_case_sensitive:
-            other_words = [each_string.lower() for each_string in other_words]
-            other_word_count = {k.lower(): v for k, v in other_word_count.items()}
+            other_count = self._lower_case_words(other_count)
+
+        self_words = list(self_count.keys())
+        self_word_count = dict(self_count.most_common(self._top_k_words))
+
+        other_words = list(other_count.keys())
+        other_word_count = dict(other_count.most_common(self._top_k_words))
 
         diff: dict = {}
         diff["vocab"] = profiler_utils.find_diff_of_lists_and_sets(
-- 
2.43.0


From a792931abc80372b3178f42f38b1311510bfaafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:42 +0000
Subject: [PATCH 51/69] fix: separate empty lines by position in free text with
 repeated row labels

---
 dataprofiler/profilers/profile_builder.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index cd6004f..1fbbd31 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -1510,7 +1510,11 @@ class UnstructuredProfiler(BaseProfiler):
             matches = data_subset.str.match(regex, flags=re.IGNORECASE)
 
             # Split series into None samples and true samples
-            true_sample_list.update(data_subset[~matches].index)
+            true_sample_list.update(
+                sample_id
+                for sample_id, is_empty in zip(chunked_sample_ids, matches)
+                if not is_empty
+            )
 
             # Ensure minimum number of true samples met
             # and if total_sample_size >= sample size, exit
@@ -1526,7 +1530,7 @@ class UnstructuredProfiler(BaseProfiler):
         true_sample_list = sorted(true_sample_list)  # type: ignore[assignment]
 
         # Split out true values for later utilization
-        data = data.loc[true_sample_list]
+        data = data.iloc[true_sample_list]
         total_empty = total_sample_size - len(true_sample_list)
 
         base_stats.update(
-- 
2.43.0


From 3f889bfbb45e160fce35fd08a6de53418a7c7d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:45 +0000
Subject: [PATCH 52/69] fix: report on a free text profile that has no lines
 yet

---
 dataprofiler/profilers/profile_builder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 1fbbd31..b1e00e2 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -1429,7 +1429,8 @@ class UnstructuredProfiler(BaseProfiler):
                 ("data_stats", OrderedDict()),
             ]
         )
-        report["data_stats"] = self._profile.report(remove_disabled_flag)
+        if self._profile is not None:
+            report["data_stats"] = self._profile.report(remove_disabled_flag)
         return _prepare_report(report, output_format, omit_keys)
 
     @classmethod
-- 
2.43.0


From a3f66de51983ec6d96e5e709e3be4ec816696dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:11 +0000
Subject: [PATCH 53/69] fix: initialize the logger only once when several
 threads use it first

---
 dataprofiler/dp_logging.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dataprofiler/dp_logging.py b/dataprofiler/dp_logging.py
index 1865ee4..6fb406e 100644
--- a/dataprofiler/dp_logging.py
+++ b/dataprofiler/dp_logging.py
@@ -20,6 +20,10 @@ def get_logger():
     _dp_logger_lock.acquire()
 
     try:
+        # Another thread may have initialized it while waiting for the lock
+        if _dp_logger:
+            return _dp_logger
+
         # Initialize specifically to DP logging
         logger = logging.getLogger("DataProfiler")
         logger.setLevel(logging.INFO)
-- 
2.43.0


From c70f0486f9b73b21ff0fc6371d763fc05f100246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:04 +0000
Subject: [PATCH 54/69] fix: label texts without characters None, not 'None',
 wherever they stand

---
 dataprofiler/labelers/data_processing.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dataprofiler/labelers/data_processing.py b/dataprofiler/labelers/data_processing.py
index d53980a..1b81349 100644
--- a/dataprofiler/labelers/data_processing.py
+++ b/dataprofiler/labelers/data_processing.py
@@ -1843,10 +1843,9 @@ class StructCharPostprocessor(BaseDataPostprocessor, metaclass=AutoSubRegistrati
 
         if is_pred_labels:
             reverse_label_mapping = {v: k for k, v in label_mapping.items()}
-            rev_label_map_vec_func = np.vectorize(
-                lambda x: reverse_label_mapping.get(x, None)
+            results["pred"] = np.array(
+                [reverse_label_mapping.get(x, None) for x in results["pred"]]
             )
-            results["pred"] = rev_label_map_vec_func(results["pred"])
         return results
 
     def _save_processor(self, dirpath: str) -> None:
-- 
2.43.0


From 26ef283433d9b64fcd4fb4983479bd1632dab768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:27 +0000
Subject: [PATCH 55/69] fix: save a regex postprocessor whose priority order is
 an array

---
 dataprofiler/labelers/data_processing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dataprofiler/labelers/data_processing.py b/dataprofiler/labelers/data_processing.py
index 1b81349..87fdfad 100644
--- a/dataprofiler/labelers/data_processing.py
+++ b/dataprofiler/labelers/data_processing.py
@@ -2066,6 +2066,8 @@ class RegexPostProcessor(BaseDataPostprocessor, metaclass=AutoSubRegistrationMet
         """
         params = copy.deepcopy(self._parameters)
         params["random_state"] = params["random_state"].getstate()
+        if isinstance(params["priority_order"], np.ndarray):
+            params["priority_order"] = params["priority_order"].tolist()
         with open(
             os.path.join(dirpath, self.processor_type + "_parameters.json"), "w"
         ) as fp:
-- 
2.43.0


From 223f180d0a4774462cbbbe6668760c8837d46067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:33 +0000
Subject: [PATCH 56/69] fix: fit a distribution to graph attributes of any
 number and size of values

---
 dataprofiler/profilers/graph_profiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/graph_profiler.py b/dataprofiler/profilers/graph_profiler.py
index 0680a29..2494462 100644
--- a/dataprofiler/profilers/graph_profiler.py
+++ b/dataprofiler/profilers/graph_profiler.py
@@ -403,7 +403,7 @@ class GraphProfiler:
                 data_as_list = self._attribute_data_as_list(graph, attribute)
                 df = pd.Series(data_as_list)
                 best_fit: str = None  # type: ignore[assignment]
-                best_mle: float = 1000
+                best_mle: float = np.inf
                 best_fit_properties: tuple = None  # type: ignore[assignment]
 
                 for distribution in distribution_candidates:
-- 
2.43.0


From d3a6ae15baed08efcf2f90bc111ff10a40b5f1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:37 +0000
Subject: [PATCH 57/69] fix: profile graphs whose edges do not all have the
 same attributes

---
 dataprofiler/profilers/graph_profiler.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dataprofiler/profilers/graph_profiler.py b/dataprofiler/profilers/graph_profiler.py
index 2494462..6c4e485 100644
--- a/dataprofiler/profilers/graph_profiler.py
+++ b/dataprofiler/profilers/graph_profiler.py
@@ -475,6 +475,8 @@ class GraphProfiler:
         for attribute in attributes:
             is_categorical = False
             for u, v in graph.edges():
+                if attribute not in graph[u][v]:
+                    continue
                 attribute_value = graph[u][v][attribute]
                 if float(attribute_value).is_integer():
                     is_categorical = True
@@ -493,7 +495,7 @@ class GraphProfiler:
     def _find_all_attributes(graph: nx.Graph) -> list[str]:
         """Compute the number of attributes for each edge."""
         attribute_list = set(
-            np.array([list(graph.edges[n].keys()) for n in graph.edges()]).flatten()
+            attribute for n in graph.edges() for attribute in graph.edges[n]
         )
         return list(attribute_list)
 
@@ -501,8 +503,8 @@ class GraphProfiler:
         """Fetch graph attribute data and convert it to a readable list."""
         data_as_list = []
         for u, v in list(graph.edges):
-            value = graph[u][v][attribute]
-            data_as_list.append(value)
+            if attribute in graph[u][v]:
+                data_as_list.append(graph[u][v][attribute])
         return data_as_list
 
     def _save_helper(self, filepath: str | None, data_dict: dict) -> None:
-- 
2.43.0


From 84c7b31a0b62dfab8bce8c4cb5301c45f75cde7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:16 +0000
Subject: [PATCH 58/69] fix: profile graph attributes to which some
 distribution cannot be fitted

---
 dataprofiler/profilers/graph_profiler.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/dataprofiler/profilers/graph_profiler.py b/dataprofiler/profilers/graph_profiler.py
index 6c4e485..6fb947b 100644
--- a/dataprofiler/profilers/graph_profiler.py
+++ b/dataprofiler/profilers/graph_profiler.py
@@ -411,11 +411,15 @@ class GraphProfiler:
 
                     # scipy 1.11.0 updated the way they handle
                     # the loc parameter in fit() for lognorm
-                    if distribution == st.lognorm and scipy_gte_1_11_0:
-                        fit = distribution.fit(df, superfit=True)
-
-                    else:
-                        fit = distribution.fit(df)
+                    try:
+                        if distribution == st.lognorm and scipy_gte_1_11_0:
+                            fit = distribution.fit(df, superfit=True)
+
+                        else:
+                            fit = distribution.fit(df)
+                    except st.FitError:
+                        # e.g. a single value or equal values
+                        continue
                     mle = distribution.nnlf(fit, df)
 
                     if mle <= best_mle:
@@ -424,6 +428,10 @@ class GraphProfiler:
                         best_mle = mle
                         best_fit_properties = fit
 
+                if best_fit is None:
+                    continuous_distributions[attribute] = None
+                    continue
+
                 mean, variance, skew, kurtosis = best_distrib.stats(
                     best_fit_properties, moments="mvsk"
                 )
-- 
2.43.0


From 3e6d08236ad9b9b45210110706039e888afac218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:25 +0000
Subject: [PATCH 59/69] fix: keep the data labelers of the profiles merged as a
 list

---
 dataprofiler/profilers/profiler_utils.py | 34 +++++++++++++++---------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/dataprofiler/profilers/profiler_utils.py b/dataprofiler/profilers/profiler_utils.py
index 417f8c5..339a96d 100644
--- a/dataprofiler/profilers/profiler_utils.py
+++ b/dataprofiler/profilers/profiler_utils.py
@@ -836,18 +836,28 @@ def merge_profile_list(
         `list_of_profiles` list.
     :rtype: Profile
     """
-    # remove the labeler model from the first profile object
-    # assuming that the labeler models are all the same across each profile
-    # in the list
-    for profile in list_of_profiles:
-        data_labeler = profile._remove_data_labelers()
-
-    while len(list_of_profiles) > 1:
-        list_of_profiles_iterator = chunk(list_of_profiles, 2)
-        with mp.Pool(pool_count) as p:
-            list_of_profiles = p.starmap(merge, list_of_profiles_iterator)
-
-    list_of_profiles[0]._restore_data_labelers(data_labeler)
+    # remove the labeler models while merging, assuming that the labeler models
+    # are all the same across each profile in the list
+    data_labeler = None
+    given_profiles = list_of_profiles
+    try:
+        for profile in given_profiles:
+            removed_data_labeler = profile._remove_data_labelers()
+            # options shared with an earlier profile no longer have the labeler
+            if data_labeler is None:
+                data_labeler = removed_data_labeler
+
+        while len(list_of_profiles) > 1:
+            list_of_profiles_iterator = chunk(list_of_profiles, 2)
+            with mp.Pool(pool_count) as p:
+                list_of_profiles = p.starmap(merge, list_of_profiles_iterator)
+    finally:
+        # the given profiles keep their labelers, even if they can't be merged
+        for profile in given_profiles:
+            profile._restore_data_labelers(data_labeler)
+
+    if list_of_profiles is not given_profiles:
+        list_of_profiles[0]._restore_data_labelers(data_labeler)
     return list_of_profiles[0]
 
 
-- 
2.43.0


From 63287f6c1a8cbd70ee86bca6d22a85ee0048fb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:25 +0000
Subject: [PATCH 60/69] fix: merge data label profiles without samples in
 worker processes

---
 .../profilers/data_labeler_column_profile.py     | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/dataprofiler/profilers/data_labeler_column_profile.py b/dataprofiler/profilers/data_labeler_column_profile.py
index 2e11016..a8082e5 100644
--- a/dataprofiler/profilers/data_labeler_column_profile.py
+++ b/dataprofiler/profilers/data_labeler_column_profile.py
@@ -116,7 +116,12 @@ class DataLabelerColumn(BaseColumnProfiler["DataLabelerColumn"]):
                 "in both DataLabeler Profilers being merged, "
                 "as required".format("_min_top_label_prob")
             )
-        if data_labeler.possible_data_labels != data_labeler2.possible_data_labels:
+        # labels are unknown until there are samples, the labelers are compared below
+        if (
+            data_labeler.sample_size
+            and data_labeler2.sample_size
+            and data_labeler.possible_data_labels != data_labeler2.possible_data_labels
+        ):
             raise ValueError(
                 "Sorry, can't merge profiles: {} are not the same "
                 "in both DataLabeler Profilers being merged, "
@@ -180,8 +185,7 @@ class DataLabelerColumn(BaseColumnProfiler["DataLabelerColumn"]):
         )
 
         # Combine rank distribution
-        if self.sample_size or other.sample_size:
-            # via the properties, as a profile without any samples yet has none
+        if self.sample_size and other.sample_size:
             merged_profile._rank_distribution = {
                 key: self.rank_distribution.get(key, 0)
                 + other.rank_distribution.get(key, 0)
@@ -192,6 +196,12 @@ class DataLabelerColumn(BaseColumnProfiler["DataLabelerColumn"]):
             merged_profile._sum_predictions = (
                 self.sum_predictions + other.sum_predictions
             )
+        elif self.sample_size or other.sample_size:
+            # a profile without any samples has none of these yet
+            sampled = self if self.sample_size else other
+            merged_profile._possible_data_labels = sampled._possible_data_labels
+            merged_profile._rank_distribution = dict(sampled.rank_distribution)
+            merged_profile._sum_predictions = sampled.sum_predictions.copy()
         return merged_profile
 
     @property
-- 
2.43.0


From 10bfef89aaa824dfe362d53933ad5c99a735ce30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:31 +0000
Subject: [PATCH 61/69] fix: do not take the skewness and kurtosis of small
 values for rounding errors

---
 dataprofiler/profilers/profiler_utils.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/dataprofiler/profilers/profiler_utils.py b/dataprofiler/profilers/profiler_utils.py
index 339a96d..bf56600 100644
--- a/dataprofiler/profilers/profiler_utils.py
+++ b/dataprofiler/profilers/profiler_utils.py
@@ -347,9 +347,11 @@ def biased_skew(df_series: Series) -> np.float64:
     M3 = sum(cubed_diffs)
     # This correction comes from the pandas implementation of
     # skewness, which zeroes these values out before computation
-    # due to possible floating point errors that can occur.
-    M2 = 0 if np.abs(M2) < 1e-14 else M2
-    M3 = 0 if np.abs(M3) < 1e-14 else M3
+    # due to possible floating point errors that can occur. What such errors
+    # can amount to depends on the size of the values.
+    max_error = np.finfo(float).eps * np.abs(mean) * n
+    M2 = 0 if np.abs(M2) <= n * max_error**2 else M2
+    M3 = 0 if np.abs(M3) <= n * max_error**3 else M3
 
     if M2 == 0:
         return np.float64(0.0)
@@ -385,9 +387,11 @@ def biased_kurt(df_series: Series) -> np.float64:
     M4 = sum(fourth_diffs)
     # This correction comes from the pandas implementation of
     # kurtosis, which zeroes these values out before computation
-    # due to possible floating point errors that can occur.
-    M2 = 0 if np.abs(M2) < 1e-14 else M2
-    M4 = 0 if np.abs(M4) < 1e-14 else M4
+    # due to possible floating point errors that can occur. What such errors
+    # can amount to depends on the size of the values.
+    max_error = np.finfo(float).eps * np.abs(mean) * n
+    M2 = 0 if np.abs(M2) <= n * max_error**2 else M2
+    M4 = 0 if np.abs(M4) <= n * max_error**4 else M4
 
     if M2 == 0:
         return np.float64(-3.0)
-- 
2.43.0


From 96ec3be40c9e7a326b9136c728128391528346d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:17 +0000
Subject: [PATCH 62/69] fix: keep unusual line separators in the values of csv
 records

---
 dataprofiler/data_readers/csv_data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dataprofiler/data_readers/csv_data.py b/dataprofiler/data_readers/csv_data.py
index aae7d3c..998f1e1 100644
--- a/dataprofiler/data_readers/csv_data.py
+++ b/dataprofiler/data_readers/csv_data.py
@@ -1,5 +1,6 @@
 """Contains class that saves and loads spreadsheet data."""
 import csv
+import os
 import re
 from collections import Counter
 from io import StringIO
@@ -618,7 +619,8 @@ class CSVData(SpreadSheetDataMixin, BaseData):
         sep = self.delimiter if self.delimiter else self._default_delimiter
         quote = self.quotechar if self.quotechar else self._default_quotechar
         data = data.to_csv(sep=sep, quotechar=quote, index=False)
-        data = data.splitlines()
+        # values may contain what else str.splitlines takes for the end of a line
+        data = data.split(os.linesep)[:-1]
         return super()._get_data_as_records(data)
 
     @classmethod
-- 
2.43.0


From 0e428f2bb8c3ec616783c67af7c19ccb5994ae10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:17 +0000
Subject: [PATCH 63/69] fix: return no records for data without rows

---
 dataprofiler/data_readers/structured_mixins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/data_readers/structured_mixins.py b/dataprofiler/data_readers/structured_mixins.py
index 3587291..3fc48a6 100644
--- a/dataprofiler/data_readers/structured_mixins.py
+++ b/dataprofiler/data_readers/structured_mixins.py
@@ -71,7 +71,7 @@ class SpreadSheetDataMixin:
 
     def _get_data_as_records(self, data: Any) -> List[str]:
         """Return data records."""
-        records_per_line = min(len(data), self.SAMPLES_PER_LINE_DEFAULT)
+        records_per_line = min(max(len(data), 1), self.SAMPLES_PER_LINE_DEFAULT)
         data = [
             str(
                 "\n".join(data[i * records_per_line : (i + 1) * records_per_line])
-- 
2.43.0


From f8298c809c0887c2f4f31eddef7ce2e4fb93cdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:15 +0000
Subject: [PATCH 64/69] fix: keep only the results of the last successful
 validation

---
 dataprofiler/validators/base_validators.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/dataprofiler/validators/base_validators.py b/dataprofiler/validators/base_validators.py
index 5b13d12..1e79489 100644
--- a/dataprofiler/validators/base_validators.py
+++ b/dataprofiler/validators/base_validators.py
@@ -91,16 +91,16 @@ class Validator:
                     f"(i.e. iter_key variable) -- not both for {iter_key}"
                 )
 
-        self.config = config
-
         df_type = config.get("df_type", "").lower()
 
+        # results are kept only once the whole run succeeded, and are those of
+        # this run only
+        validation_report: dict = dict()
+
         for iter_key, value in known_anomaly_validation.items():
-            self.validation_report[iter_key] = dict()
+            validation_report[iter_key] = dict()
             df_series = data[iter_key]
             for sub_key, sub_value in value.items():
-                self.validation_report[iter_key][sub_key] = dict()
-
                 if sub_key not in ["range", "list"]:
                     raise TypeError("Range and list only acceptable key values.")
                 apply_type: Callable[[str | int | float, dict], bool] = (
@@ -118,14 +118,14 @@ class Validator:
                     temp_results = temp_results.compute()
                     # Dask evaluates this to be an nd array so we have to
                     # convert it to a normal list
-                    self.validation_report[iter_key][sub_key] = [
+                    validation_report[iter_key][sub_key] = [
                         idx
                         for idx, val in enumerate(temp_results.values.tolist())
                         if val
                     ]
                 elif df_type == "pandas":
                     temp_results = df_series.apply(apply_type, args=(sub_value,))
-                    self.validation_report[iter_key][sub_key] = [
+                    validation_report[iter_key][sub_key] = [
                         idx for idx, val in temp_results.items() if val
                     ]
                 else:
@@ -133,6 +133,8 @@ class Validator:
                         "Dask and Pandas are the only supported dataframe " "types."
                     )
                 del temp_results
+        self.config = config
+        self.validation_report = validation_report
         self.validation_run = True
 
     def get(self) -> dict:
-- 
2.43.0


From f5e62cccdd8682f002cb92c36f224c0a0085d8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:30 +0000
Subject: [PATCH 65/69] fix: report the null rows of both profiles in a
 difference

---
 dataprofiler/profilers/profiler_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/profiler_utils.py b/dataprofiler/profilers/profiler_utils.py
index bf56600..c6822f8 100644
--- a/dataprofiler/profilers/profiler_utils.py
+++ b/dataprofiler/profilers/profiler_utils.py
@@ -643,7 +643,7 @@ def find_diff_of_dicts_with_diff_keys(
     for key, value1 in dict1.items():
         if key in dict2:
             value2 = dict2[key]
-            if isinstance(value1, list):
+            if isinstance(value1, (list, set)):
                 diff_shared[key] = find_diff_of_lists_and_sets(value1, value2)
             elif isinstance(value1, datetime.datetime):
                 diff_shared[key] = find_diff_of_dates(value1, value2)
-- 
2.43.0


From 8eebc7b69b8e970510d7fa429561fe37f13b074b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:42 +0000
Subject: [PATCH 66/69] fix: leave the exponent of numbers written with E out
 of the precision

---
 dataprofiler/profilers/float_column_profile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/float_column_profile.py b/dataprofiler/profilers/float_column_profile.py
index 3e5aaad..436a6a3 100644
--- a/dataprofiler/profilers/float_column_profile.py
+++ b/dataprofiler/profilers/float_column_profile.py
@@ -293,8 +293,8 @@ class FloatColumn(
             return None
 
         # Lead zeros: ^[+-.0\s]+ End zeros: \.?0+(\s|$)
-        # Scientific Notation: (?<=[e])(.*) Any non-digits: \D
-        r = re.compile(r"^[+-.0\s]+|\.?0+(\s|$)|(?<=[e])(.*)|\D")
+        # Scientific Notation: (?<=[eE])(.*) Any non-digits: \D
+        r = re.compile(r"^[+-.0\s]+|\.?0+(\s|$)|(?<=[eE])(.*)|\D")
 
         # DEFAULT: Sample the dataset. If small use full dataset,
         # OR 20k samples or 5% of the dataset which ever is larger.
-- 
2.43.0


From 85cc345b3800ed326042c5961b1db44eb1ac2625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:05 +0000
Subject: [PATCH 67/69] fix: report no more quantile groups than quantiles were
 asked for

---
 dataprofiler/profilers/helpers/report_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/helpers/report_helpers.py b/dataprofiler/profilers/helpers/report_helpers.py
index 2e08e74..bb0a1dd 100644
--- a/dataprofiler/profilers/helpers/report_helpers.py
+++ b/dataprofiler/profilers/helpers/report_helpers.py
@@ -22,7 +22,7 @@ def calculate_quantiles(
     """
     len_quant = len(quantiles)
     if not (num_quantile_groups and 0 < num_quantile_groups <= (len_quant + 1)):
-        num_quantile_groups = 4
+        num_quantile_groups = min(4, len_quant + 1)
     quant_multiplier = (len_quant + 1) / num_quantile_groups
     # quantile is one less than group
     # Goes from zero (inclusive) to number of groups (exclusive)
-- 
2.43.0


From 4270ba0c1eab07e8ec9d4ca7259e083284d7744f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:37 +0000
Subject: [PATCH 68/69] fix: keep the number of quantiles asked for when
 profiles are merged

---
 dataprofiler/profilers/numerical_column_stats.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index e0930a0..210f9c6 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -343,6 +343,9 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
         if "num_negatives" in self.__calculations.keys():
             self.num_negatives = other1.num_negatives + other2.num_negatives
 
+        # Merge number of quantiles
+        self._num_quantiles = max(other1._num_quantiles, other2._num_quantiles)
+
         if "histogram_and_quantiles" in self.__calculations.keys():
             if other1._has_histogram and other2._has_histogram:
                 self._add_helper_merge_profile_histograms(other1, other2)
-- 
2.43.0


From de24f2db2dd8c2e2f9e68600a82a50064bcde000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:54 +0000
Subject: [PATCH 69/69] fix: read all lines of JSON lines given as text

A blank line ended the read of JSON lines given as a string, and values
with U+2028 and the like were cut into pieces that were dropped as
malformed. The lines are now those of a file with the same text.
---
 dataprofiler/data_readers/json_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/data_readers/json_data.py b/dataprofiler/data_readers/json_data.py
index 93e5d7e..6f12b19 100644
--- a/dataprofiler/data_readers/json_data.py
+++ b/dataprofiler/data_readers/json_data.py
@@ -249,9 +249,9 @@ class JSONData(SpreadSheetDataMixin, BaseData):
         try:
             data = json.loads(data_as_str)
         except json.JSONDecodeError:
-            data_generator = data_utils.data_generator(data_as_str.splitlines())
+            # same lines as those of a file with this text, blank ones included
             data = data_utils.read_json(
-                data_generator=data_generator,
+                data_generator=StringIO(data_as_str, newline=None),
                 selected_columns=self.selected_keys,
                 read_in_string=False,
             )
-- 
2.43.0

