From c4cd68081d70687699d7da29bf0960f5a0de3012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:21 +0000
Subject: [PATCH 01/85] fix: keep a running min/max of zero when the next batch
 arrives

---
 dataprofiler/profilers/numerical_column_stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index fa0666a..96f30f7 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -1770,7 +1770,7 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
         subset_properties: dict,
     ) -> None:
         min_value = df_series.min()
-        self.min = min_value if not self.min else min(self.min, min_value)
+        self.min = min_value if self.min is None else min(self.min, min_value)
         subset_properties["min"] = min_value
 
     @BaseColumnProfiler._timeit(name="max")
@@ -1781,7 +1781,7 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
         subset_properties: dict,
     ) -> None:
         max_value = df_series.max()
-        self.max = max_value if not self.max else max(self.max, max_value)
+        self.max = max_value if self.max is None else max(self.max, max_value)
         subset_properties["max"] = max_value
 
     @BaseColumnProfiler._timeit(name="sum")
-- 
2.43.0


From 45cc7ac0ecf8cc869a967141a6411c936b881712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:41 +0000
Subject: [PATCH 02/85] fix: merged kurtosis of constant data follows the
 unmerged convention

---
 dataprofiler/profilers/numerical_column_stats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index 96f30f7..123c542 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -1022,7 +1022,8 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
         M2_2 = match_count2 * biased_variance2
         M2 = M2_1 + M2_2 + delta**2 * match_count1 * match_count2 / N
         if not M2:
-            return 0.0
+            # same convention as profiler_utils.biased_kurt for constant data
+            return -3.0
 
         M3_1: np.float64 = biased_skewness1 * np.sqrt(M2_1**3) / np.sqrt(match_count1)
         M3_2: np.float64 = biased_skewness2 * np.sqrt(M2_2**3) / np.sqrt(match_count2)
-- 
2.43.0


From 0773bc77be3ee3f849c93d5fa5d02f5f0a3213d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:49 +0000
Subject: [PATCH 03/85] fix: keep the histogram when a profile is merged with
 one without data

---
 dataprofiler/profilers/numerical_column_stats.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index 123c542..b79bfbe 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -345,12 +345,15 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
         if "histogram_and_quantiles" in self.__calculations.keys():
             if other1._has_histogram and other2._has_histogram:
                 self._add_helper_merge_profile_histograms(other1, other2)
-            elif not other2._has_histogram:
-                self.histogram_methods = other1.histogram_methods
-                self.quantiles = other1.quantiles
             else:
-                self.histogram_methods = other2.histogram_methods
-                self.quantiles = other2.quantiles
+                # only one profile (if any) has seen data: keep its histogram
+                other = other2 if other2._has_histogram else other1
+                self.histogram_bin_method_names = list(other.histogram_bin_method_names)
+                self.user_set_histogram_bin = other.user_set_histogram_bin
+                self.histogram_selection = other.histogram_selection
+                self.histogram_methods = copy.deepcopy(other.histogram_methods)
+                self._stored_histogram = copy.deepcopy(other._stored_histogram)
+                self.quantiles = copy.copy(other.quantiles)
 
         # Merge max k mode count
         self._top_k_modes = max(other1._top_k_modes, other2._top_k_modes)
-- 
2.43.0


From fb29ebf9d15ea710ff28205b3ef4f01a89a4b93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:49 +0000
Subject: [PATCH 04/85] fix: report of merged profiles with a user-set
 histogram bin count

---
 dataprofiler/profilers/numerical_column_stats.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index b79bfbe..bca2fd2 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -192,6 +192,7 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
             self.histogram_methods[method] = {
                 "total_loss": np.float64(0.0),
                 "current_loss": np.float64(0.0),
+                "suggested_bin_count": ideal_count_of_bins,
                 "histogram": {"bin_counts": None, "bin_edges": None},
             }
 
-- 
2.43.0


From a3dec3586fba83960e77919c0cd85f80ac50f660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:49 +0000
Subject: [PATCH 05/85] fix: updating a merged profile no longer leaves its
 histogram stale

---
 dataprofiler/profilers/numerical_column_stats.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index bca2fd2..5b56a31 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -1245,7 +1245,10 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
 
     def _histogram_to_array(self) -> np.ndarray:
         # Extend histogram to array format
-        bin_counts = self._stored_histogram["histogram"]["bin_counts"]
+        # counts of a merged histogram are whole numbers stored as floats
+        bin_counts = np.asarray(
+            self._stored_histogram["histogram"]["bin_counts"]
+        ).astype(int)
         bin_edges = self._stored_histogram["histogram"]["bin_edges"]
         is_bin_non_zero = bin_counts[:-1] > 0
         bin_left_edge = bin_edges[:-2][is_bin_non_zero]
-- 
2.43.0


From 08398c73aba3779de3c141a60b9c0fa8daae25f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:31 +0000
Subject: [PATCH 06/85] fix: median of zero in a gap of the histogram

---
 dataprofiler/profilers/numerical_column_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index 5b56a31..85e7a46 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -1592,7 +1592,7 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
         quantiles: np.ndarray = np.interp(
             percentiles / 100, cumsum_bin_counts, bin_edges
         )
-        if median_value:
+        if median_value is not None:
             quantiles[percentiles == 50] = median_value
         return cast(List[float], quantiles.tolist())
 
-- 
2.43.0


From af44b5047fc9ac4886abe50544d35c9424756aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:31 +0000
Subject: [PATCH 07/85] fix: median absolute deviation when the median lies in
 the first bin

---
 dataprofiler/profilers/numerical_column_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index 85e7a46..ae9691d 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -1626,7 +1626,7 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
         # if all bin edges are positive or negative (no break point)
         if id_zero is None:
             return [[], []], [normalized_bin_counts, bin_edges]
-        if id_zero == 1:
+        if id_zero == 0 or (id_zero == 1 and bin_edges[0] == 0):
             return [normalized_bin_counts, bin_edges], [[], []]
 
         # otherwise, generate two folds of deviation
-- 
2.43.0


From 01ec377b40a148b7d1c4081e16f712a6d9b74fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:59 +0000
Subject: [PATCH 08/85] fix: null ratio of a column covers all batches, not
 only the last

---
 dataprofiler/profilers/profile_builder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 6e51265..753dbb7 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -432,7 +432,9 @@ class StructuredColProfiler:
         self._last_batch_size = base_stats["sample_size"]
         self.sample = base_stats["sample"]
         self.null_count += base_stats["null_count"]
-        self.null_ratio = base_stats["null_count"] / base_stats["sample_size"]
+        self.null_ratio = (
+            self.null_count / self.sample_size if self.sample_size else None
+        )
         self.null_types = profiler_utils._combine_unique_sets(
             self.null_types, list(base_stats["null_types"].keys())
         )
-- 
2.43.0


From b9d13df0fafea380d957301309c961c1999bdae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:59 +0000
Subject: [PATCH 09/85] fix: null values are matched with the case flag they
 were given

---
 dataprofiler/profilers/profile_builder.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 753dbb7..6edc7b5 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -620,7 +620,10 @@ class StructuredColProfiler:
         na_columns: dict = dict()
         true_sample_set = set()
         total_sample_size = 0
-        query = "|".join(null_values.keys())
+        query = "|".join(
+            f"(?i:{null_value})" if flags & re.IGNORECASE else null_value
+            for null_value, flags in null_values.items()
+        )
         regex = f"^(?:{(query)})$"
         for chunked_sample_ids in sample_ind_generator:
             total_sample_size += len(chunked_sample_ids)
@@ -629,7 +632,7 @@ class StructuredColProfiler:
             df_subset = df_series.iloc[chunked_sample_ids]
 
             # Query should search entire cell for all elements at once
-            matches = df_subset.str.match(regex, flags=re.IGNORECASE)
+            matches = df_subset.str.match(regex)
 
             # Split series into None samples and true samples
             true_sample_set.update(df_subset[~matches].index)
-- 
2.43.0


From 08773ad1e7d1f6ce31c875a25b3c015c0ee292d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:28 +0000
Subject: [PATCH 10/85] fix: merging HyperLogLog row hashes leaves the operands
 unchanged

---
 dataprofiler/profilers/profile_builder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 6edc7b5..3e25ce8 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -1810,8 +1810,8 @@ class StructuredProfiler(BaseProfiler):
                 elif isinstance(self.hashed_row_object, HyperLogLog) and isinstance(
                     other.hashed_row_object, HyperLogLog
                 ):
-                    self.hashed_row_object.merge(other.hashed_row_object),
-                    merged_profile.hashed_row_object = self.hashed_row_object
+                    merged_profile.hashed_row_object.merge(self.hashed_row_object)
+                    merged_profile.hashed_row_object.merge(other.hashed_row_object)
 
         self_to_other_idx = self._get_and_validate_schema_mapping(
             self._col_name_to_idx, other._col_name_to_idx
-- 
2.43.0


From 60511709541170f7fd8e56465f18a769150de210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:28 +0000
Subject: [PATCH 11/85] fix: index shift of an earlier batch no longer applied
 to later ones

---
 dataprofiler/profilers/profile_builder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 3e25ce8..4eca410 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -444,6 +444,7 @@ class StructuredColProfiler:
         base_nti = base_stats["null_types"]
 
         # Check if indices overlap, if they do, adjust attributes accordingly
+        self._index_shift = None
         if profiler_utils.overlap(self._min_id, self._max_id, base_min, base_max):
             warnings.warn(
                 f"Overlapping indices detected. To resolve, indices "
-- 
2.43.0


From b281332e5fa724803d1e348ca972dd66d2095379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:14 +0000
Subject: [PATCH 12/85] fix: merging correlations follows the column mapping

---
 dataprofiler/profilers/profile_builder.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 4eca410..9bce4b0 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2390,8 +2390,16 @@ class StructuredProfiler(BaseProfiler):
         :param other: the other profile that needs to be merged
         :return:
         """
+        self_to_other_idx = self._get_and_validate_schema_mapping(
+            self._col_name_to_idx, other._col_name_to_idx
+        )
+        other_order = [self_to_other_idx[idx] for idx in range(len(self._profile))]
+
         corr_mat1 = self.correlation_matrix
         corr_mat2 = other.correlation_matrix
+        if corr_mat2 is not None and other_order:
+            # other's columns in the order of this profile
+            corr_mat2 = corr_mat2[np.ix_(other_order, other_order)]
         n1 = self.total_samples - self.row_is_null_count
         n2 = other.total_samples - other.row_is_null_count
         if n1 == 0:
@@ -2428,14 +2436,14 @@ class StructuredProfiler(BaseProfiler):
 
         mean2 = np.array(
             [
-                other._profile[idx].profile["statistics"]["mean"]
+                other._profile[other_order[idx]].profile["statistics"]["mean"]
                 for idx in range(len(self._profile))
                 if idx in col_ids2
             ]
         )
         std2 = np.array(
             [
-                other._profile[idx].profile["statistics"]["stddev"]
+                other._profile[other_order[idx]].profile["statistics"]["stddev"]
                 for idx in range(len(self._profile))
                 if idx in col_ids2
             ]
-- 
2.43.0


From 66e669602ae6a36141f5828131790db3778ba3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:06 +0000
Subject: [PATCH 13/85] fix: merging correlations of profiles that have a
 non-numeric column

---
 dataprofiler/profilers/profile_builder.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 9bce4b0..68a44eb 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2422,30 +2422,34 @@ class StructuredProfiler(BaseProfiler):
         mean1 = np.array(
             [
                 self._profile[idx].profile["statistics"]["mean"]
-                for idx in range(len(self._profile))
                 if idx in col_ids1
+                else np.nan
+                for idx in range(len(self._profile))
             ]
         )
         std1 = np.array(
             [
                 self._profile[idx].profile["statistics"]["stddev"]
-                for idx in range(len(self._profile))
                 if idx in col_ids1
+                else np.nan
+                for idx in range(len(self._profile))
             ]
         )
 
         mean2 = np.array(
             [
                 other._profile[other_order[idx]].profile["statistics"]["mean"]
-                for idx in range(len(self._profile))
                 if idx in col_ids2
+                else np.nan
+                for idx in range(len(self._profile))
             ]
         )
         std2 = np.array(
             [
                 other._profile[other_order[idx]].profile["statistics"]["stddev"]
-                for idx in range(len(self._profile))
                 if idx in col_ids2
+                else np.nan
+                for idx in range(len(self._profile))
             ]
         )
         return self._merge_correlation_helper(
-- 
2.43.0


From a6f835ba41fb6b319eaa9eec50f18f5a3295bb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:56 +0000
Subject: [PATCH 14/85] fix: merging null replication metrics follows the
 column mapping

---
 dataprofiler/profilers/profile_builder.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 68a44eb..7047d85 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2720,6 +2720,11 @@ class StructuredProfiler(BaseProfiler):
             "data_type_profile"
         ]._profiles[get_data_type(profile)]
 
+        self_to_other_idx = self._get_and_validate_schema_mapping(
+            self._col_name_to_idx, other._col_name_to_idx
+        )
+        other_order = [self_to_other_idx[idx] for idx in range(len(self._profile))]
+
         self_row_sum = np.asarray(
             [
                 get_data_type_profiler(profile).sum
@@ -2733,14 +2738,15 @@ class StructuredProfiler(BaseProfiler):
                 get_data_type_profiler(profile).sum
                 if get_data_type(profile)
                 else np.nan
-                for profile in other._profile
+                for profile in (other._profile[idx] for idx in other_order)
             ]
         )
         total_row_sum: np.ndarray = self_row_sum + other_row_sum
         merged_properties: dict = defaultdict(dict)
         for col_id in range(len(self._profile)):
             self_profile = self._profile[col_id]
-            other_profile = other._profile[col_id]
+            other_col_id = other_order[col_id]
+            other_profile = other._profile[other_col_id]
 
             self_null_count = getattr(self_profile, "null_count")
             other_null_count = getattr(other_profile, "null_count")
@@ -2762,8 +2768,8 @@ class StructuredProfiler(BaseProfiler):
                 else None
             )
             other_sum_null = (
-                other._null_replication_metrics[col_id]["class_sum"][1]
-                if col_id in other._null_replication_metrics
+                other._null_replication_metrics[other_col_id]["class_sum"][1]
+                if other_col_id in other._null_replication_metrics
                 else None
             )
             # Initialize zeros array of size (number of columns - 1)
@@ -2775,7 +2781,14 @@ class StructuredProfiler(BaseProfiler):
                 sum_null += np.asarray(self_sum_null)
 
             if other_sum_null is not None:
-                sum_null += np.asarray(other_sum_null)
+                # other lists its remaining columns in its own column order
+                sum_null += np.asarray(other_sum_null)[
+                    [
+                        idx - (idx > other_col_id)
+                        for idx in other_order
+                        if idx != other_col_id
+                    ]
+                ]
 
             sum_not_null = np.delete(total_row_sum, col_id) - sum_null
 
-- 
2.43.0


From dfab105f531782a5ea8544dc51f5a4ea569292f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:18 +0000
Subject: [PATCH 15/85] fix: updating a one-row profile whose variance is a
 plain float

---
 dataprofiler/profilers/profile_builder.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 7047d85..1d99a97 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2488,9 +2488,10 @@ class StructuredProfiler(BaseProfiler):
                     dependent_properties["mean"][id] = data_type_profiler.mean
                     # Subtract null row count as those aren't included in corr. calc
                     dependent_properties["std"][id] = np.sqrt(
-                        data_type_profiler._biased_variance
-                        * n
-                        / (self.total_samples - self.row_is_null_count - 1)
+                        np.divide(
+                            data_type_profiler._biased_variance * n,
+                            self.total_samples - self.row_is_null_count - 1,
+                        )
                     )
                     dependent_properties["count"][id] = n
                 # Finding the properties of the batch data if given
-- 
2.43.0


From 23d8ad29ce9c5385fc6ed76f8f116cd5dc23c850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:18 +0000
Subject: [PATCH 16/85] fix: null replication sums follow the profile's column
 order

---
 dataprofiler/profilers/profile_builder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 1d99a97..07337fa 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2619,6 +2619,8 @@ class StructuredProfiler(BaseProfiler):
         :type clean_samples: dict
         """
         data = pd.DataFrame(clean_samples).apply(pd.to_numeric, errors="coerce")
+        # an update may list the columns in another order than the profile does
+        data = data.sort_index(axis=1)
 
         get_data_type = lambda profile: profile.profiles[  # NOQA: E731
             "data_type_profile"
-- 
2.43.0


From cc507af8976eb6b724b6009eb2d9da1084f1a7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:39 +0000
Subject: [PATCH 17/85] fix: merging null replication metrics of profiles with
 a datetime column

---
 dataprofiler/profilers/profile_builder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 07337fa..e2136bf 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2731,7 +2731,7 @@ class StructuredProfiler(BaseProfiler):
         self_row_sum = np.asarray(
             [
                 get_data_type_profiler(profile).sum
-                if get_data_type(profile)
+                if get_data_type(profile) not in [None, "datetime"]
                 else np.nan
                 for profile in self._profile
             ]
@@ -2739,7 +2739,7 @@ class StructuredProfiler(BaseProfiler):
         other_row_sum = np.asarray(
             [
                 get_data_type_profiler(profile).sum
-                if get_data_type(profile)
+                if get_data_type(profile) not in [None, "datetime"]
                 else np.nan
                 for profile in (other._profile[idx] for idx in other_order)
             ]
-- 
2.43.0


From 34852a7376ee290a67dbb47f0d754c219c773265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:12 +0000
Subject: [PATCH 18/85] fix: a merged categorical profile with a count-min
 sketch can be updated

---
 dataprofiler/profilers/categorical_column_profile.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataprofiler/profilers/categorical_column_profile.py b/dataprofiler/profilers/categorical_column_profile.py
index 1ca6309..9868edb 100644
--- a/dataprofiler/profilers/categorical_column_profile.py
+++ b/dataprofiler/profilers/categorical_column_profile.py
@@ -111,6 +111,9 @@ class CategoricalColumn(BaseColumnProfiler["CategoricalColumn"]):
 
         if self.cms and other.cms:
 
+            merged_profile.cms_num_hashes = self.cms_num_hashes
+            merged_profile.cms_num_buckets = self.cms_num_buckets
+
             assert isinstance(self._cms_max_num_heavy_hitters, int)
             assert isinstance(other._cms_max_num_heavy_hitters, int)
             cms_max_num_heavy_hitters: int = min(
-- 
2.43.0


From 945740f336e487bba9b3f18e04dec8aef7bc91f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:12 +0000
Subject: [PATCH 19/85] fix: merging categorical profiles keeps
 top_k_categories

---
 dataprofiler/profilers/categorical_column_profile.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dataprofiler/profilers/categorical_column_profile.py b/dataprofiler/profilers/categorical_column_profile.py
index 9868edb..2b25a4e 100644
--- a/dataprofiler/profilers/categorical_column_profile.py
+++ b/dataprofiler/profilers/categorical_column_profile.py
@@ -109,6 +109,11 @@ class CategoricalColumn(BaseColumnProfiler["CategoricalColumn"]):
             merged_profile.__calculations, self.__calculations, other.__calculations
         )
 
+        if self._top_k_categories is not None and other._top_k_categories is not None:
+            merged_profile._top_k_categories = max(
+                self._top_k_categories, other._top_k_categories
+            )
+
         if self.cms and other.cms:
 
             merged_profile.cms_num_hashes = self.cms_num_hashes
-- 
2.43.0


From a8a7c50270a4c7c3528ade2293945d03c9f5d2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:16 +0000
Subject: [PATCH 20/85] fix: recognise dates in May in formats without a full
 month name

---
 dataprofiler/profilers/datetime_column_profile.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/datetime_column_profile.py b/dataprofiler/profilers/datetime_column_profile.py
index af99283..da889dd 100644
--- a/dataprofiler/profilers/datetime_column_profile.py
+++ b/dataprofiler/profilers/datetime_column_profile.py
@@ -277,7 +277,12 @@ class DateTimeColumn(BaseColumnPrimitiveTypeProfiler["DateTimeColumn"]):
 
             df_dates = valid_dates[~valid_dates.isnull()]
 
-            if "%b" in date_format and not df_dates.empty:
+            # May reads the same in both month formats, the full one takes it if there is
+            has_full_month_format = (
+                "%b" in date_format
+                and date_format.replace("%b", "%B") in cls._date_formats
+            )
+            if has_full_month_format and not df_dates.empty:
                 may_month = 5  # May can be %b or %B we want to force, so check
                 all_may = df_dates.apply(lambda x: x.month == may_month).all()
                 if all_may:
-- 
2.43.0


From 2a26eca568b53932023b4a960ba45943922bcef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:02 +0000
Subject: [PATCH 21/85] fix: population stability index compares both
 histograms over the same bins

---
 .../profilers/numerical_column_stats.py       | 42 ++++---------------
 1 file changed, 9 insertions(+), 33 deletions(-)

diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index ae9691d..a66e7d3 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -706,37 +706,14 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
             new_other_histogram["bin_edges"] = other_histogram["bin_edges"]
             new_other_histogram["bin_counts"] = other_histogram["bin_counts"]
 
-            len_self_bin_counts = len(self_histogram["bin_counts"])
-
-            # re-calculate `self` histogram
-            if len_self_bin_counts != num_psi_bins:
-                histogram, hist_loss = self._regenerate_histogram(
-                    entity_count_per_bin=self_histogram["bin_counts"],
-                    bin_edges=self_histogram["bin_edges"],
-                    suggested_bin_count=num_psi_bins,
-                    is_float_histogram=isinstance(
-                        self, float_column_profile.FloatColumn
-                    ),
-                    options={
-                        "min_edge": min_min_edge,
-                        "max_edge": max_max_edge,
-                    },
-                )
-                new_self_histogram["bin_counts"] = histogram["bin_counts"]
-                new_self_histogram["bin_edges"] = histogram["bin_edges"]
-
-            # re-calculate `other_profile` histogram
-            histogram_edges_not_equal = False
-            all_array_values_equal = np.array_equal(
-                other_histogram["bin_edges"], self_histogram["bin_edges"]
-            )
-            if not all_array_values_equal:
-                histogram_edges_not_equal = True
-
-            if histogram_edges_not_equal:
+            # bring both histograms to the same `num_psi_bins` bins
+            psi_bin_edges = np.linspace(min_min_edge, max_max_edge, num_psi_bins + 1)
+            for new_histogram in (new_self_histogram, new_other_histogram):
+                if np.array_equal(new_histogram["bin_edges"], psi_bin_edges):
+                    continue
                 histogram, hist_loss = self._regenerate_histogram(
-                    entity_count_per_bin=other_histogram["bin_counts"],
-                    bin_edges=other_histogram["bin_edges"],
+                    entity_count_per_bin=new_histogram["bin_counts"],
+                    bin_edges=new_histogram["bin_edges"],
                     suggested_bin_count=num_psi_bins,
                     is_float_histogram=isinstance(
                         self, float_column_profile.FloatColumn
@@ -746,9 +723,8 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
                         "max_edge": max_max_edge,
                     },
                 )
-
-                new_other_histogram["bin_edges"] = histogram["bin_edges"]
-                new_other_histogram["bin_counts"] = histogram["bin_counts"]
+                new_histogram["bin_counts"] = histogram["bin_counts"]
+                new_histogram["bin_edges"] = histogram["bin_edges"]
 
         return new_self_histogram, new_other_histogram
 
-- 
2.43.0


From 2f9980589d2a846b686c34ad5bb659fb9fc3f4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:02 +0000
Subject: [PATCH 22/85] fix: line up updates with the profile's columns before
 profiling them

---
 dataprofiler/profilers/profile_builder.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index e2136bf..94b6f4c 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2856,6 +2856,14 @@ class StructuredProfiler(BaseProfiler):
             mapping_given, self._col_name_to_idx
         )
 
+        # Line the data up with the profile: same order of columns, same names
+        if self._profile:
+            col_order = sorted(col_idx_to_prof_idx, key=col_idx_to_prof_idx.__getitem__)
+            data = data.iloc[:, col_order].set_axis(
+                [column.name for column in self._profile], axis=1
+            )
+            col_idx_to_prof_idx = {idx: idx for idx in range(len(col_order))}
+
         try:
             from tqdm import tqdm
 
-- 
2.43.0


From 0582e4a57db4e880b90056ca469d18b3a0c37c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:16 +0000
Subject: [PATCH 23/85] fix: row hashes do not depend on the order of the
 columns

---
 dataprofiler/profilers/profile_builder.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 94b6f4c..9549cf5 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2226,17 +2226,26 @@ class StructuredProfiler(BaseProfiler):
             )
 
         if self.options.row_statistics.unique_count.is_enabled:
+            # Profiles of the same columns in another order can be merged, hence
+            # rows are hashed independently of the order of the columns
+            rows = data.iloc[
+                :,
+                sorted(
+                    range(data.shape[1]),
+                    key=lambda col_idx: str(data.columns[col_idx]).lower(),
+                ),
+            ]
             if isinstance(self.hashed_row_object, dict):
                 try:
                     self.hashed_row_object.update(
                         dict.fromkeys(
-                            pd.util.hash_pandas_object(data, index=False), True
+                            pd.util.hash_pandas_object(rows, index=False), True
                         )
                     )
                 except TypeError:
                     self.hashed_row_object.update(
                         dict.fromkeys(
-                            pd.util.hash_pandas_object(data.astype(str), index=False),
+                            pd.util.hash_pandas_object(rows.astype(str), index=False),
                             True,
                         )
                     )
@@ -2249,7 +2258,7 @@ class StructuredProfiler(BaseProfiler):
                         break
                     end_ind = (batch_ind + 1) * batch_size
                     for record in (
-                        data[start_ind : min(end_ind, len(data))]
+                        rows[start_ind : min(end_ind, len(data))]
                         .to_json(orient="records", lines=True)
                         .splitlines()
                     ):
-- 
2.43.0


From 67075f9b1b6a4aef21a9f9ab0ea3b442463227d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:32 +0000
Subject: [PATCH 24/85] fix: variance of the float precision over several
 updates

---
 dataprofiler/profilers/float_column_profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/float_column_profile.py b/dataprofiler/profilers/float_column_profile.py
index bc426a4..b19fde9 100644
--- a/dataprofiler/profilers/float_column_profile.py
+++ b/dataprofiler/profilers/float_column_profile.py
@@ -379,7 +379,6 @@ class FloatColumn(
                 self._precision["max"], subset_precision["max"]
             )
             self._precision["sum"] += subset_precision["sum"]
-            self._precision["sample_size"] += subset_precision["sample_size"]
 
             self._precision["biased_var"] = self._merge_biased_variance(
                 self._precision["sample_size"],
@@ -390,6 +389,7 @@ class FloatColumn(
                 subset_precision["mean"],
             )
 
+            self._precision["sample_size"] += subset_precision["sample_size"]
             self._precision["mean"] = (
                 self._precision["sum"] / self._precision["sample_size"]
             )
-- 
2.43.0


From 4c4865c27ee89c3e1e6fe69ff63aa62b8ccfa067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:32 +0000
Subject: [PATCH 25/85] fix: float precision samples at least one value

---
 dataprofiler/profilers/float_column_profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/float_column_profile.py b/dataprofiler/profilers/float_column_profile.py
index b19fde9..240ce5e 100644
--- a/dataprofiler/profilers/float_column_profile.py
+++ b/dataprofiler/profilers/float_column_profile.py
@@ -301,7 +301,7 @@ class FloatColumn(
         # If user sets sample ratio, utilize their request
         sample_size = min(len_df, max(20000, int(len_df * 0.05)))
         if sample_ratio is not None and sample_ratio > 0:
-            sample_size = int(len_df * sample_ratio)
+            sample_size = max(int(len_df * sample_ratio), 1)
 
         # length of sampled cells after all punctuation removed
         len_per_float = (
-- 
2.43.0


From 6baeaba19f52f6459f0460c10f11f9c985db72e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:32 +0000
Subject: [PATCH 26/85] fix: float precision ignores exponents written with E

---
 dataprofiler/profilers/float_column_profile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/float_column_profile.py b/dataprofiler/profilers/float_column_profile.py
index 240ce5e..ba35de3 100644
--- a/dataprofiler/profilers/float_column_profile.py
+++ b/dataprofiler/profilers/float_column_profile.py
@@ -293,8 +293,8 @@ class FloatColumn(
             return None
 
         # Lead zeros: ^[+-.0\s]+ End zeros: \.?0+(\s|$)
-        # Scientific Notation: (?<=[e])(.*) Any non-digits: \D
-        r = re.compile(r"^[+-.0\s]+|\.?0+(\s|$)|(?<=[e])(.*)|\D")
+        # Scientific Notation: (?<=[eE])(.*) Any non-digits: \D
+        r = re.compile(r"^[+-.0\s]+|\.?0+(\s|$)|(?<=[eE])(.*)|\D")
 
         # DEFAULT: Sample the dataset. If small use full dataset,
         # OR 20k samples or 5% of the dataset which ever is larger.
-- 
2.43.0


From 5c0f5770b6db37d1d8db711403621772d68cb674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:19 +0000
Subject: [PATCH 27/85] fix: merging column labels when one side has seen no
 data

---
 dataprofiler/profilers/data_labeler_column_profile.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dataprofiler/profilers/data_labeler_column_profile.py b/dataprofiler/profilers/data_labeler_column_profile.py
index d9bfe1e..d792952 100644
--- a/dataprofiler/profilers/data_labeler_column_profile.py
+++ b/dataprofiler/profilers/data_labeler_column_profile.py
@@ -182,14 +182,13 @@ class DataLabelerColumn(BaseColumnProfiler["DataLabelerColumn"]):
         # Combine rank distribution
         if self.sample_size or other.sample_size:
             merged_profile._rank_distribution = {
-                key: self._rank_distribution.get(key, 0)
-                + other._rank_distribution.get(key, 0)
-                for key in set(self._rank_distribution) | set(other._rank_distribution)
+                key: count + other.rank_distribution.get(key, 0)
+                for key, count in self.rank_distribution.items()
             }
 
             # Combine Sum Predictions
             merged_profile._sum_predictions = (
-                self._sum_predictions + other._sum_predictions
+                self.sum_predictions + other.sum_predictions
             )
         return merged_profile
 
-- 
2.43.0


From 34703aca27862663851c90c2f563d62400c6cf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:53 +0000
Subject: [PATCH 28/85] fix: labels of flattened texts are kept with an empty
 separator

---
 dataprofiler/labelers/data_processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/labelers/data_processing.py b/dataprofiler/labelers/data_processing.py
index d53980a..86923e9 100644
--- a/dataprofiler/labelers/data_processing.py
+++ b/dataprofiler/labelers/data_processing.py
@@ -584,7 +584,7 @@ class CharPreprocessor(BaseDataPreprocessor, metaclass=AutoSubRegistrationMeta):
                             flattened_sample_len -= flatten_separator_len
                             if label_set is not None:
                                 flattened_entities = flattened_entities[
-                                    :-flatten_separator_len
+                                    : len(flattened_entities) - flatten_separator_len
                                 ]
                             force_sample = True
                         elif separate_ind == buffer_ind:
-- 
2.43.0


From fb9bddbb8fa954ac3abcc1cfb4a4ed12218f66a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:07 +0000
Subject: [PATCH 29/85] fix: encoded preprocessing accepts arrays of labels

---
 dataprofiler/labelers/data_processing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/labelers/data_processing.py b/dataprofiler/labelers/data_processing.py
index 86923e9..fe5cc3e 100644
--- a/dataprofiler/labelers/data_processing.py
+++ b/dataprofiler/labelers/data_processing.py
@@ -862,7 +862,7 @@ class CharEncodedPreprocessor(CharPreprocessor, metaclass=AutoSubRegistrationMet
         max_length = self._parameters["max_length"]
         for char_processed_data in char_processor_gen:
             x = char_processed_data
-            if labels:
+            if labels is not None:
                 x = char_processed_data[0]
                 y = char_processed_data[1]
 
@@ -875,7 +875,7 @@ class CharEncodedPreprocessor(CharPreprocessor, metaclass=AutoSubRegistrationMet
                     for c in text[0]
                 ]
 
-            if labels:
+            if labels is not None:
                 yield processed_x, y
             else:
                 yield processed_x
-- 
2.43.0


From 705a23ef06fe791942250de886d6892dbb5ab33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:42 +0000
Subject: [PATCH 30/85] fix: merged text profiles drop the stop words of either
 operand

---
 dataprofiler/profilers/unstructured_text_profile.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dataprofiler/profilers/unstructured_text_profile.py b/dataprofiler/profilers/unstructured_text_profile.py
index 96b7d06..d53ca96 100644
--- a/dataprofiler/profilers/unstructured_text_profile.py
+++ b/dataprofiler/profilers/unstructured_text_profile.py
@@ -503,10 +503,9 @@ class TextProfiler:
 
         # remove stop words
         merged_profile._stop_words = self._stop_words.union(other._stop_words)
-        if len(merged_profile._stop_words) != len(self._stop_words):
-            for w in list(merged_profile.word_count.keys()):
-                if w.lower() in merged_profile._stop_words:
-                    merged_profile.word_count.pop(w)
+        for w in list(merged_profile.word_count.keys()):
+            if w.lower() in merged_profile._stop_words:
+                merged_profile.word_count.pop(w)
 
         if self._is_case_sensitive != other._is_case_sensitive:
             for w, c in list(merged_profile.word_count.items()):
-- 
2.43.0


From 866a723752a20c0a15e15c8f6a6697946ec373c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:14 +0000
Subject: [PATCH 31/85] fix: best fit of graph attributes with large negative
 log likelihoods

---
 dataprofiler/profilers/graph_profiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/graph_profiler.py b/dataprofiler/profilers/graph_profiler.py
index 0680a29..6e3c273 100644
--- a/dataprofiler/profilers/graph_profiler.py
+++ b/dataprofiler/profilers/graph_profiler.py
@@ -403,7 +403,7 @@ class GraphProfiler:
                 data_as_list = self._attribute_data_as_list(graph, attribute)
                 df = pd.Series(data_as_list)
                 best_fit: str = None  # type: ignore[assignment]
-                best_mle: float = 1000
+                best_mle: float = float("inf")
                 best_fit_properties: tuple = None  # type: ignore[assignment]
 
                 for distribution in distribution_candidates:
-- 
2.43.0


From b0a195c4a1bf2f697713dba7682e80b161c4026a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:14 +0000
Subject: [PATCH 32/85] fix: graph profiles of edges with different attributes

---
 dataprofiler/profilers/graph_profiler.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/dataprofiler/profilers/graph_profiler.py b/dataprofiler/profilers/graph_profiler.py
index 6e3c273..24ae656 100644
--- a/dataprofiler/profilers/graph_profiler.py
+++ b/dataprofiler/profilers/graph_profiler.py
@@ -475,6 +475,8 @@ class GraphProfiler:
         for attribute in attributes:
             is_categorical = False
             for u, v in graph.edges():
+                if attribute not in graph[u][v]:
+                    continue
                 attribute_value = graph[u][v][attribute]
                 if float(attribute_value).is_integer():
                     is_categorical = True
@@ -492,17 +494,17 @@ class GraphProfiler:
     @staticmethod
     def _find_all_attributes(graph: nx.Graph) -> list[str]:
         """Compute the number of attributes for each edge."""
-        attribute_list = set(
-            np.array([list(graph.edges[n].keys()) for n in graph.edges()]).flatten()
-        )
+        attribute_list = set()
+        for edge in graph.edges():
+            attribute_list.update(graph.edges[edge].keys())
         return list(attribute_list)
 
     def _attribute_data_as_list(self, graph: nx.Graph, attribute: str) -> list:
         """Fetch graph attribute data and convert it to a readable list."""
         data_as_list = []
         for u, v in list(graph.edges):
-            value = graph[u][v][attribute]
-            data_as_list.append(value)
+            if attribute in graph[u][v]:
+                data_as_list.append(graph[u][v][attribute])
         return data_as_list
 
     def _save_helper(self, filepath: str | None, data_dict: dict) -> None:
-- 
2.43.0


From b4e95ff0c406216acb67eabbd9b075bb600e738a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:47 +0000
Subject: [PATCH 33/85] fix: compact reports do not change the caller's omit
 keys

---
 .../profilers/helpers/report_helpers.py         | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/dataprofiler/profilers/helpers/report_helpers.py b/dataprofiler/profilers/helpers/report_helpers.py
index 0588252..e395dd3 100644
--- a/dataprofiler/profilers/helpers/report_helpers.py
+++ b/dataprofiler/profilers/helpers/report_helpers.py
@@ -124,15 +124,14 @@ def _prepare_report(
     max_array_len = 5
 
     if output_format == "compact":
-        omit_keys.extend(
-            [
-                "data_stats.*.statistics.times",
-                "data_stats.*.statistics.avg_predictions",
-                "data_stats.*.statistics.data_label_representation",
-                "data_stats.*.statistics.null_types_index",
-                "data_stats.*.statistics.histogram",
-            ]
-        )
+        # the list of the caller is not changed
+        omit_keys = omit_keys + [
+            "data_stats.*.statistics.times",
+            "data_stats.*.statistics.avg_predictions",
+            "data_stats.*.statistics.data_label_representation",
+            "data_stats.*.statistics.null_types_index",
+            "data_stats.*.statistics.histogram",
+        ]
         output_format = "pretty"
 
     for key in report:
-- 
2.43.0


From 2b0ceafbf6e671b91c5e909ceae703de57b8a01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:47 +0000
Subject: [PATCH 34/85] fix: reports can omit every key of the second level

---
 dataprofiler/profilers/helpers/report_helpers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataprofiler/profilers/helpers/report_helpers.py b/dataprofiler/profilers/helpers/report_helpers.py
index e395dd3..9611c89 100644
--- a/dataprofiler/profilers/helpers/report_helpers.py
+++ b/dataprofiler/profilers/helpers/report_helpers.py
@@ -172,6 +172,7 @@ def _prepare_report(
 
                     # Omit this column
                     if omit_key in {
+                        "*.*",
                         f"*.{col_name}",
                         "data_stats.*",
                         f"data_stats.{col_name}",
-- 
2.43.0


From 22e3435e28647211fa8f8174581234ab0e02e6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:47 +0000
Subject: [PATCH 35/85] fix: omit keys apply to the level of lists of
 dictionaries

---
 .../profilers/helpers/report_helpers.py       | 47 ++++++++++++-------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/dataprofiler/profilers/helpers/report_helpers.py b/dataprofiler/profilers/helpers/report_helpers.py
index 9611c89..b8459f1 100644
--- a/dataprofiler/profilers/helpers/report_helpers.py
+++ b/dataprofiler/profilers/helpers/report_helpers.py
@@ -86,6 +86,33 @@ def _clean_profile_schema(value: dict) -> dict:
     return dict(zip(profile_schema_keys, value.values()))
 
 
+def _next_layer_omit_keys(key: str, omit_keys: list[str]) -> list[str]:
+    """
+    Split off any remaining keys for the recursion below the given key.
+
+    i.e. [test0, test1.test2] -> [test2] below test1
+
+    :param key: key of the report which is recursed into
+    :type key: str
+    :param omit_keys: keys to omit at the level of the given key
+    :type omit_keys: list(str)
+    :return: keys to omit below the given key
+    :rtype: list(str)
+    """
+    next_layer_omit_keys = []
+    for omit_key in omit_keys:
+        omit_key_split = omit_key.split(".", 1)
+
+        # Must have more keys left for recursion
+        if len(omit_key_split) > 1:
+            next_key_layer = omit_key_split[-1]
+            prior_key_layer = omit_key_split[0]
+            if len(next_key_layer) > 0:
+                if prior_key_layer == "*" or prior_key_layer == key:
+                    next_layer_omit_keys.append(next_key_layer)
+    return next_layer_omit_keys
+
+
 def _prepare_report(
     report: dict, output_format: str | None = None, omit_keys: list[str] | None = None
 ) -> dict:
@@ -215,23 +242,9 @@ def _prepare_report(
 
         elif isinstance(value, dict):
 
-            # split off any remaining keys for the recursion
-            # i.e. [test0, test1.test2] -> omit_keys => [test1.test2]
-            next_layer_omit_keys = []
-            for omit_key in omit_keys:
-                omit_key_split = omit_key.split(".", 1)
-
-                # Must have more keys left for recursion
-                if len(omit_key_split) > 1:
-                    next_key_layer = omit_key_split[-1]
-                    prior_key_layer = omit_key_split[0]
-                    if len(next_key_layer) > 0:
-                        if prior_key_layer == "*" or prior_key_layer == key:
-                            next_layer_omit_keys.append(next_key_layer)
-
             # Recursively add keys to the final report
             fmt_report[key] = _prepare_report(
-                value, output_format, next_layer_omit_keys
+                value, output_format, _next_layer_omit_keys(key, omit_keys)
             )
 
         elif isinstance(value, (list, np.ndarray, set)):
@@ -264,8 +277,10 @@ def _prepare_report(
             if output_format in ["pretty", "serializable", "compact"] and all(
                 isinstance(v, dict) for v in value
             ):
+                next_layer_omit_keys = _next_layer_omit_keys(key, omit_keys)
                 fmt_report[key] = [
-                    _prepare_report(v, output_format, omit_keys) for v in value
+                    _prepare_report(v, output_format, next_layer_omit_keys)
+                    for v in value
                 ]
 
         elif isinstance(value, float) and output_format == "pretty":
-- 
2.43.0


From 057a83c8a2169757c072ac59872d9031a689ec31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:47 +0000
Subject: [PATCH 36/85] fix: quantiles of reports do not depend on float
 rounding

---
 dataprofiler/profilers/helpers/report_helpers.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/dataprofiler/profilers/helpers/report_helpers.py b/dataprofiler/profilers/helpers/report_helpers.py
index b8459f1..249cdf0 100644
--- a/dataprofiler/profilers/helpers/report_helpers.py
+++ b/dataprofiler/profilers/helpers/report_helpers.py
@@ -1,8 +1,6 @@
 """Contains helper functions for generating report."""
 from __future__ import annotations
 
-import math
-
 import numpy as np
 
 
@@ -22,16 +20,15 @@ def calculate_quantiles(
     len_quant = len(quantiles)
     if not (num_quantile_groups and 0 < num_quantile_groups <= (len_quant + 1)):
         num_quantile_groups = 4
-    quant_multiplier = (len_quant + 1) / num_quantile_groups
     # quantile is one less than group
     # Goes from zero (inclusive) to number of groups (exclusive)
     # +1 because 0 + 1 * multiplier = correct first quantile
     # -1 because 0 index
     # i.e. quantile:
-    # quant_multiplier = 1000 / 4 = 250
-    # [0 + 1] * (quant_multiplier) - 1 = 1 * 250 - 1 = 249 (first quantile)
+    # [0 + 1] * 1000 / 4 - 1 = 1 * 250 - 1 = 249 (first quantile)
+    # rounded up in integers as 1000 / 30 * 15 is slightly larger than 500
     quantiles = {
-        ind: quantiles[math.ceil((ind + 1) * quant_multiplier) - 1]
+        ind: quantiles[-(-(ind + 1) * (len_quant + 1) // num_quantile_groups) - 1]
         for ind in range(num_quantile_groups - 1)
     }
     return quantiles
-- 
2.43.0


From 23c4a9267316aca7783763fba2850b5c512ab67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:02 +0000
Subject: [PATCH 37/85] fix: computing correlations keeps the samples for the
 other statistics

---
 dataprofiler/profilers/profile_builder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 9549cf5..7c4fa2f 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2331,6 +2331,8 @@ class StructuredProfiler(BaseProfiler):
             column_ids = [
                 idx for col_name in columns for idx in self._col_name_to_idx[col_name]
             ]
+        # the samples are still needed by the other statistics
+        clean_samples = clean_samples.copy()
         clean_column_ids = []
         for idx in column_ids:
             data_type = cast(
-- 
2.43.0


From d3c4be277743d12ed14e9b836849968f08c209dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:45 +0000
Subject: [PATCH 38/85] fix: merged text columns keep the name of their type

---
 dataprofiler/profilers/text_column_profile.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dataprofiler/profilers/text_column_profile.py b/dataprofiler/profilers/text_column_profile.py
index bea8dbd..318d1ff 100644
--- a/dataprofiler/profilers/text_column_profile.py
+++ b/dataprofiler/profilers/text_column_profile.py
@@ -66,6 +66,7 @@ class TextColumn(
         if "vocab" in merged_profile.__calculations:
             merged_profile.vocab = self.vocab.copy()
             merged_profile._update_vocab(other.vocab)
+        merged_profile._update_type()
         return merged_profile
 
     def report(self, remove_disabled_flag: bool = False) -> dict:
@@ -167,6 +168,10 @@ class TextColumn(
             text_lengths = df_series_clean.str.len()
             NumericStatsMixin._update_helper(self, text_lengths, profile)
         self._update_column_base_properties(profile)
+        self._update_type()
+
+    def _update_type(self) -> None:
+        """Set the name of the type from the length of the longest text."""
         if self.max:
             self.type = "string" if self.max <= 255 else "text"
 
-- 
2.43.0


From d07d55265c01530aec1400d9d72e3ab476012499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:30 +0000
Subject: [PATCH 39/85] fix: errors of the row statistics options are reported

---
 dataprofiler/profilers/profiler_options.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/profiler_options.py b/dataprofiler/profilers/profiler_options.py
index 038acf8..0120b7b 100644
--- a/dataprofiler/profilers/profiler_options.py
+++ b/dataprofiler/profilers/profiler_options.py
@@ -1204,7 +1204,7 @@ class RowStatisticsOptions(BooleanOption["RowStatisticsOptions"]):
 
         errors += self.unique_count._validate_helper(variable_path + ".unique_counts")
         errors += self.null_count._validate_helper(variable_path + ".null_count")
-        return super()._validate_helper(variable_path)
+        return errors
 
 
 class DataLabelerOptions(BaseInspectorOptions["DataLabelerOptions"]):
-- 
2.43.0


From 60ad23cf98c59fabcdec89e5937496d609df5c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:31 +0000
Subject: [PATCH 40/85] fix: switches of the text profiler options are
 validated

---
 dataprofiler/profilers/profiler_options.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dataprofiler/profilers/profiler_options.py b/dataprofiler/profilers/profiler_options.py
index 0120b7b..4ed5124 100644
--- a/dataprofiler/profilers/profiler_options.py
+++ b/dataprofiler/profilers/profiler_options.py
@@ -1416,11 +1416,15 @@ class TextProfilerOptions(BaseInspectorOptions["TextProfilerOptions"]):
             errors.append(
                 "{}.vocab must be a BooleanOption " "object.".format(variable_path)
             )
+        else:
+            errors += self.vocab._validate_helper(variable_path + ".vocab")
 
         if not isinstance(self.words, BooleanOption):
             errors.append(
                 "{}.words must be a BooleanOption " "object.".format(variable_path)
             )
+        else:
+            errors += self.words._validate_helper(variable_path + ".words")
 
         return errors
 
-- 
2.43.0


From 3cbf540b7ab9c6a95c3d95196e0eb25d63b6040a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:03 +0000
Subject: [PATCH 41/85] fix: blank lines do not end the reading of JSON lines

---
 dataprofiler/data_readers/data_utils.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/dataprofiler/data_readers/data_utils.py b/dataprofiler/data_readers/data_utils.py
index 611d25d..f6b79d4 100644
--- a/dataprofiler/data_readers/data_utils.py
+++ b/dataprofiler/data_readers/data_utils.py
@@ -199,10 +199,8 @@ def read_json_df(
         try:
             raw_line = next(data_generator)
         except StopIteration:
-            raw_line = None
-
-        if not raw_line:
             break
+
         try:
             obj = unicode_to_str(
                 json.loads(
@@ -255,10 +253,8 @@ def read_json(
         try:
             raw_line = next(data_generator)
         except StopIteration:
-            raw_line = None
-
-        if not raw_line:
             break
+
         try:
             obj = unicode_to_str(
                 json.loads(
-- 
2.43.0


From 3ea30880ea4dcf9d7ddc5c6ce2e263e3e1af916b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:03 +0000
Subject: [PATCH 42/85] fix: nested JSON lines are flattened like other nested
 JSON

---
 dataprofiler/data_readers/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/data_readers/data_utils.py b/dataprofiler/data_readers/data_utils.py
index f6b79d4..aef275b 100644
--- a/dataprofiler/data_readers/data_utils.py
+++ b/dataprofiler/data_readers/data_utils.py
@@ -149,7 +149,7 @@ def json_to_dataframe(
             "Only JSON which represents structured data is supported for this "
             "data type (i.e. list-dicts)."
         )
-    elif first_item_type == dict:
+    elif issubclass(first_item_type, dict):
         df = pd.json_normalize(json_lines)
     else:
         df = pd.DataFrame(json_lines)
-- 
2.43.0


From e3e5df593e5ed3fb6ff9675a261cf5df29d56582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:03 +0000
Subject: [PATCH 43/85] fix: plain values under a payload key are no payload

---
 dataprofiler/data_readers/json_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/data_readers/json_data.py b/dataprofiler/data_readers/json_data.py
index 93e5d7e..effbb82 100644
--- a/dataprofiler/data_readers/json_data.py
+++ b/dataprofiler/data_readers/json_data.py
@@ -187,7 +187,7 @@ class JSONData(SpreadSheetDataMixin, BaseData):
             found_payload_key = None
             payloads = {}
             for payload_key in self._payload_keys:
-                if payload_key in json_lines.keys():
+                if isinstance(json_lines.get(payload_key), (dict, list)):
                     payload_data = json_lines[payload_key]
                     if isinstance(payload_data, dict):
                         payload_data = self._find_data(payload_data)
-- 
2.43.0


From ce962dbfeaa05054ed8ffc329796c010cf401f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:03 +0000
Subject: [PATCH 44/85] fix: records of JSON with a key that is both value and
 parent

---
 dataprofiler/data_readers/json_data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dataprofiler/data_readers/json_data.py b/dataprofiler/data_readers/json_data.py
index effbb82..d8cf440 100644
--- a/dataprofiler/data_readers/json_data.py
+++ b/dataprofiler/data_readers/json_data.py
@@ -358,6 +358,8 @@ class JSONData(SpreadSheetDataMixin, BaseData):
                 new_key, nested_key = key.split(separator, 1)
                 new_value = dic.get(new_key, {})
                 new_value = {} if new_value in [None, np.nan, "nan"] else new_value
+                if not isinstance(new_value, dict):
+                    continue  # the parent key holds a value itself
                 new_value[nested_key] = dic[key]
                 dic.pop(key, None)
                 new_value = cls._convert_flat_to_nested_cols(new_value, separator)
-- 
2.43.0


From c317611f92e1de55781d3d8f9afea643e90b2645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:03 +0000
Subject: [PATCH 45/85] fix: records of data without rows

---
 dataprofiler/data_readers/structured_mixins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/data_readers/structured_mixins.py b/dataprofiler/data_readers/structured_mixins.py
index 3587291..3fc48a6 100644
--- a/dataprofiler/data_readers/structured_mixins.py
+++ b/dataprofiler/data_readers/structured_mixins.py
@@ -71,7 +71,7 @@ class SpreadSheetDataMixin:
 
     def _get_data_as_records(self, data: Any) -> List[str]:
         """Return data records."""
-        records_per_line = min(len(data), self.SAMPLES_PER_LINE_DEFAULT)
+        records_per_line = min(max(len(data), 1), self.SAMPLES_PER_LINE_DEFAULT)
         data = [
             str(
                 "\n".join(data[i * records_per_line : (i + 1) * records_per_line])
-- 
2.43.0


From 7c1b93e3a3779d1340ff709e3c6b1794075549c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:19 +0000
Subject: [PATCH 46/85] fix: the key separator also joins the keys of records

---
 dataprofiler/data_readers/data_utils.py | 5 ++++-
 dataprofiler/data_readers/json_data.py  | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/dataprofiler/data_readers/data_utils.py b/dataprofiler/data_readers/data_utils.py
index aef275b..ad4e439 100644
--- a/dataprofiler/data_readers/data_utils.py
+++ b/dataprofiler/data_readers/data_utils.py
@@ -125,6 +125,7 @@ def json_to_dataframe(
     json_lines: List[JSONType],
     selected_columns: Optional[List[str]] = None,
     read_in_string: bool = False,
+    key_separator: str = ".",
 ) -> Tuple[pd.DataFrame, pd.Series]:
     """
     Take list of json objects and return dataframe representing json list.
@@ -136,6 +137,8 @@ def json_to_dataframe(
     :param read_in_string: if True, all the values in dataframe will be
         converted to string
     :type read_in_string: bool
+    :param key_separator: text which joins the keys of nested objects
+    :type key_separator: str
     :return: dataframe converted from json list and list of dtypes for each
         column
     :rtype: tuple(pd.DataFrame, pd.Series(dtypes))
@@ -150,7 +153,7 @@ def json_to_dataframe(
             "data type (i.e. list-dicts)."
         )
     elif issubclass(first_item_type, dict):
-        df = pd.json_normalize(json_lines)
+        df = pd.json_normalize(json_lines, sep=key_separator)
     else:
         df = pd.DataFrame(json_lines)
     original_df_dtypes = df.dtypes
diff --git a/dataprofiler/data_readers/json_data.py b/dataprofiler/data_readers/json_data.py
index d8cf440..aacdc7f 100644
--- a/dataprofiler/data_readers/json_data.py
+++ b/dataprofiler/data_readers/json_data.py
@@ -196,6 +196,7 @@ class JSONData(SpreadSheetDataMixin, BaseData):
                         json_lines=payload_data,
                         selected_columns=self.selected_keys,
                         read_in_string=False,
+                        key_separator=self._key_separator,
                     )
                     for column in payload_data.columns:
                         payload_data.rename(
@@ -228,6 +229,7 @@ class JSONData(SpreadSheetDataMixin, BaseData):
             json_lines=json_lines,
             selected_columns=self.selected_keys,
             read_in_string=False,
+            key_separator=self._key_separator,
         )
         self._original_df_dtypes = original_df_dtypes
 
-- 
2.43.0


From dbb2df4a982342611f67edb30288b71f5a709a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:19 +0000
Subject: [PATCH 47/85] fix: selected keys of a payload are not looked for in
 the metadata

---
 dataprofiler/data_readers/json_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/data_readers/json_data.py b/dataprofiler/data_readers/json_data.py
index aacdc7f..3d1c508 100644
--- a/dataprofiler/data_readers/json_data.py
+++ b/dataprofiler/data_readers/json_data.py
@@ -227,7 +227,7 @@ class JSONData(SpreadSheetDataMixin, BaseData):
 
         data, original_df_dtypes = data_utils.json_to_dataframe(
             json_lines=json_lines,
-            selected_columns=self.selected_keys,
+            selected_columns=self.selected_keys if payload_data is None else None,
             read_in_string=False,
             key_separator=self._key_separator,
         )
-- 
2.43.0


From c8aa66615e81e9a3550cf653f8db1df98fd74346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:08 +0000
Subject: [PATCH 48/85] fix: the last line of JSON text is not dropped

---
 dataprofiler/data_readers/json_data.py    | 4 +++-
 dataprofiler/data_readers/parquet_data.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/data_readers/json_data.py b/dataprofiler/data_readers/json_data.py
index 3d1c508..482d194 100644
--- a/dataprofiler/data_readers/json_data.py
+++ b/dataprofiler/data_readers/json_data.py
@@ -310,7 +310,9 @@ class JSONData(SpreadSheetDataMixin, BaseData):
         data = self._get_data_as_df(data)
         data = data.to_json(orient="records")
         char_per_line = min(len(data), self.SAMPLES_PER_LINE_DEFAULT)
-        return list(map("".join, zip(*[iter(data)] * char_per_line)))
+        return [
+            data[i : i + char_per_line] for i in range(0, len(data), char_per_line)
+        ]
 
     def _get_data_as_df(self, data: Union[pd.DataFrame, Dict, List]) -> pd.DataFrame:
         """
diff --git a/dataprofiler/data_readers/parquet_data.py b/dataprofiler/data_readers/parquet_data.py
index 4fa567b..71cefbc 100644
--- a/dataprofiler/data_readers/parquet_data.py
+++ b/dataprofiler/data_readers/parquet_data.py
@@ -125,7 +125,9 @@ class ParquetData(SpreadSheetDataMixin, BaseData):
         """Return json data."""
         data = data.to_json(orient="records")
         chars_per_line = min(len(data), self.SAMPLES_PER_LINE_DEFAULT)
-        return list(map("".join, zip(*[iter(data)] * chars_per_line)))
+        return [
+            data[i : i + chars_per_line] for i in range(0, len(data), chars_per_line)
+        ]
 
     @classmethod
     def is_match(
-- 
2.43.0


From 6ebadf7257c2d2c8563da067c5a459426935f724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:33 +0000
Subject: [PATCH 49/85] fix: records keep the values below a key that is
 missing elsewhere

---
 dataprofiler/data_readers/json_data.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dataprofiler/data_readers/json_data.py b/dataprofiler/data_readers/json_data.py
index 482d194..9e3fdb2 100644
--- a/dataprofiler/data_readers/json_data.py
+++ b/dataprofiler/data_readers/json_data.py
@@ -355,6 +355,7 @@ class JSONData(SpreadSheetDataMixin, BaseData):
         :type separator: str
         :return:
         """
+        nested_keys = {}
         for key in list(dic.keys()):
             if not isinstance(key, str):
                 continue
@@ -366,8 +367,10 @@ class JSONData(SpreadSheetDataMixin, BaseData):
                     continue  # the parent key holds a value itself
                 new_value[nested_key] = dic[key]
                 dic.pop(key, None)
-                new_value = cls._convert_flat_to_nested_cols(new_value, separator)
                 dic[new_key] = new_value
+                nested_keys[new_key] = new_value
+        for new_key, new_value in nested_keys.items():
+            dic[new_key] = cls._convert_flat_to_nested_cols(new_value, separator)
         return dic
 
     @classmethod
-- 
2.43.0


From 00825869122e4e64a42496c3aa8f13f08b9a4fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:24 +0000
Subject: [PATCH 50/85] fix: profiles of columns with integer names can be
 saved as JSON

---
 dataprofiler/profilers/profile_builder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 7c4fa2f..25ecd20 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2860,6 +2860,8 @@ class StructuredProfiler(BaseProfiler):
             # Pandas columns are int by default, but need to fuzzy match strs
             if isinstance(col, str):
                 col = col.lower()
+            elif isinstance(col, np.integer):
+                col = int(col)
             mapping_given[col].append(col_idx)
 
         # Validate schema compatibility and index mapping from data to _profile
-- 
2.43.0


From 716139f5011c959f0bb8c94e513780f57a5230ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:49 +0000
Subject: [PATCH 51/85] fix: loaded profiles know their columns by the original
 names

---
 dataprofiler/profilers/profile_builder.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 25ecd20..fdec6b5 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2134,12 +2134,14 @@ class StructuredProfiler(BaseProfiler):
             data["chi2_matrix"] = np.array(data["chi2_matrix"])
         if data["correlation_matrix"] is not None:
             data["correlation_matrix"] = np.array(data["correlation_matrix"])
-        try:
-            data["_col_name_to_idx"] = defaultdict(
-                list, {int(k): v for k, v in data["_col_name_to_idx"].items()}
-            )
-        except Exception:
-            data["_col_name_to_idx"] = defaultdict(list, data["_col_name_to_idx"])
+        # JSON turns the names into strings, the columns still know theirs
+        col_name_to_idx = defaultdict(list)
+        for col_idx, column in enumerate(data["_profile"]):
+            col_name = column["data"]["name"]
+            if isinstance(col_name, str):
+                col_name = col_name.lower()
+            col_name_to_idx[col_name].append(col_idx)
+        data["_col_name_to_idx"] = col_name_to_idx
 
         data["hashed_row_object"] = {
             int(k): v for k, v in data["hashed_row_object"].items()
-- 
2.43.0


From 08ae1ba609d18da81127730e8af9666ae8bf6706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:49 +0000
Subject: [PATCH 52/85] fix: null replication metrics survive saving as JSON

---
 dataprofiler/profilers/profile_builder.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index fdec6b5..29ec553 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2143,6 +2143,11 @@ class StructuredProfiler(BaseProfiler):
             col_name_to_idx[col_name].append(col_idx)
         data["_col_name_to_idx"] = col_name_to_idx
 
+        if data.get("_null_replication_metrics") is not None:
+            data["_null_replication_metrics"] = {
+                int(k): v for k, v in data["_null_replication_metrics"].items()
+            }
+
         data["hashed_row_object"] = {
             int(k): v for k, v in data["hashed_row_object"].items()
         }
-- 
2.43.0


From c93d218622dd2133bd6f5f3e0d0b2d135e9655c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:49 +0000
Subject: [PATCH 53/85] fix: pickled profiles keep correlations and null
 replication metrics

---
 dataprofiler/profilers/profile_builder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 29ec553..f1acb13 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -3122,7 +3122,10 @@ class StructuredProfiler(BaseProfiler):
                 "_samples_per_update": self._samples_per_update,
                 "_min_true_samples": self._min_true_samples,
                 "options": self.options,
+                "correlation_matrix": self.correlation_matrix,
                 "chi2_matrix": self.chi2_matrix,
+                "_null_replication_metrics": self._null_replication_metrics,
+                "_sampling_ratio": self._sampling_ratio,
                 "_profile": self.profile,
                 "_col_name_to_idx": self._col_name_to_idx,
                 "times": self.times,
-- 
2.43.0


From 054b467c436e49ed0844d9dfaf508fda0c5ee8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:51 +0000
Subject: [PATCH 54/85] fix: correlations survive columns that once held
 infinity

---
 dataprofiler/profilers/profile_builder.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index f1acb13..d4de8c2 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2517,9 +2517,10 @@ class StructuredProfiler(BaseProfiler):
                     history = data_type_profiler._batch_history[-1]
                     n = history["match_count"]
                     # Since we impute values, we want the total rows (including nulls)
-                    dependent_properties["mean"][id] = history["mean"]
+                    # not kept once the variance is no longer a finite number
+                    dependent_properties["mean"][id] = history.get("mean", np.nan)
                     dependent_properties["std"][id] = np.sqrt(
-                        history["biased_variance"] * n / (n - 1)
+                        history.get("biased_variance", np.nan) * n / (n - 1)
                     )
                     dependent_properties["count"][id] = n
 
-- 
2.43.0


From 9799a17db279762e5fc2cd7f2c9c87b25cca42f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:51 +0000
Subject: [PATCH 55/85] fix: columns without a data type can be compared

---
 dataprofiler/profilers/profile_builder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index d4de8c2..7a6806f 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -285,7 +285,8 @@ class StructuredColProfiler:
             }
         )
 
-        unordered_profile["statistics"].update(
+        # no statistics to start from if the column has no type
+        unordered_profile.setdefault("statistics", {}).update(
             {
                 "sample_size": profiler_utils.find_diff_of_numbers(
                     self.sample_size, other_profile.sample_size
-- 
2.43.0


From 6b6ef0e93b4215259c95adfb481672a57257010a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:51 +0000
Subject: [PATCH 56/85] fix: sums of null replication metrics may change from
 whole numbers

---
 dataprofiler/profilers/profile_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 7a6806f..cc4b3e9 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2700,7 +2700,7 @@ class StructuredProfiler(BaseProfiler):
 
                 # np.array for element wise addition
                 old_sum_null = np.asarray(old_sum_null)
-                sum_null += old_sum_null
+                sum_null = sum_null + old_sum_null
 
             sum_not_null = np.delete(total_row_sum, col_id) - sum_null
 
-- 
2.43.0


From c1c53a9b9ec7cbbcbd6df55f714219c4e736a7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:39 +0000
Subject: [PATCH 57/85] fix: merged null replication metrics with a column all
 null on one side

---
 dataprofiler/profilers/profile_builder.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index cc4b3e9..5e23338 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2765,6 +2765,13 @@ class StructuredProfiler(BaseProfiler):
             ]
         )
         total_row_sum: np.ndarray = self_row_sum + other_row_sum
+        # a profile in which a column is all null adds nothing to its sum
+        for col_id, other_col_id in enumerate(other_order):
+            self_col, other_col = self._profile[col_id], other._profile[other_col_id]
+            if self_col.null_count == self_col.sample_size:
+                total_row_sum[col_id] = other_row_sum[col_id]
+            elif other_col.null_count == other_col.sample_size:
+                total_row_sum[col_id] = self_row_sum[col_id]
         merged_properties: dict = defaultdict(dict)
         for col_id in range(len(self._profile)):
             self_profile = self._profile[col_id]
-- 
2.43.0


From e392c9f0f61cb373a7b88031f48e37e3e164f430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:14 +0000
Subject: [PATCH 58/85] fix: categorical columns can be compared with columns
 without values

---
 dataprofiler/profilers/categorical_column_profile.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/categorical_column_profile.py b/dataprofiler/profilers/categorical_column_profile.py
index 2b25a4e..c4be127 100644
--- a/dataprofiler/profilers/categorical_column_profile.py
+++ b/dataprofiler/profilers/categorical_column_profile.py
@@ -326,8 +326,11 @@ class CategoricalColumn(BaseColumnProfiler["CategoricalColumn"]):
 
             total_psi = 0.0
             for iter_key in self_cat_count.keys():
-                percent_self = self_cat_count[iter_key] / self.sample_size
-                percent_other = other_cat_count[iter_key] / other_profile.sample_size
+                # a column without values has no share in any category
+                percent_self = self_cat_count[iter_key] / max(self.sample_size, 1)
+                percent_other = other_cat_count[iter_key] / max(
+                    other_profile.sample_size, 1
+                )
                 if (percent_other != 0) and (percent_self != 0):
                     total_psi += (percent_other - percent_self) * math.log(
                         percent_other / percent_self
-- 
2.43.0


From d4e991c8132aabed51a67897eb1c29b7e9e75fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:10 +0000
Subject: [PATCH 59/85] fix: correlations pool batches of few rows or with
 constant columns

---
 dataprofiler/profilers/profile_builder.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 5e23338..e7f8001 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2361,7 +2361,7 @@ class StructuredProfiler(BaseProfiler):
             adjusted_stds = np.sqrt(
                 batch_properties["std"] ** 2
                 * (batch_properties["count"] - 1)
-                / (len(data) - 1)
+                / max(len(data) - 1, 1)
             )
             batch_properties["std"] = adjusted_stds
         # Set count key to a single number now that everything's been adjusted
@@ -2373,7 +2373,9 @@ class StructuredProfiler(BaseProfiler):
 
         # then, fill in the correlations for valid columns
         rows = [[id] for id in clean_column_ids]
-        corr_mat[rows, clean_column_ids] = np.corrcoef(data, rowvar=False)
+        # fewer than two rows do not correlate
+        if len(data) > 1:
+            corr_mat[rows, clean_column_ids] = np.corrcoef(data, rowvar=False)
 
         return corr_mat
 
@@ -2509,7 +2511,7 @@ class StructuredProfiler(BaseProfiler):
                     dependent_properties["std"][id] = np.sqrt(
                         np.divide(
                             data_type_profiler._biased_variance * n,
-                            self.total_samples - self.row_is_null_count - 1,
+                            max(self.total_samples - self.row_is_null_count - 1, 1),
                         )
                     )
                     dependent_properties["count"][id] = n
@@ -2521,7 +2523,7 @@ class StructuredProfiler(BaseProfiler):
                     # not kept once the variance is no longer a finite number
                     dependent_properties["mean"][id] = history.get("mean", np.nan)
                     dependent_properties["std"][id] = np.sqrt(
-                        history.get("biased_variance", np.nan) * n / (n - 1)
+                        history.get("biased_variance", np.nan) * n / max(n - 1, 1)
                     )
                     dependent_properties["count"][id] = n
 
@@ -2563,14 +2565,19 @@ class StructuredProfiler(BaseProfiler):
             return corr_mat2
         elif len(mean2) == 0:
             return corr_mat1
+        elif n1 == 0:
+            return corr_mat2
+        elif n2 == 0:
+            return corr_mat1
 
         std_mat1 = np.outer(std1, std1)
         std_mat2 = np.outer(std2, std2)
         mean_diff_vector = mean1 - mean2
         mean_diff_mat = np.outer(mean_diff_vector, mean_diff_vector)
 
-        cov1 = corr_mat1 * std_mat1
-        cov2 = corr_mat2 * std_mat2
+        # a column that is constant on one side varies with no other column there
+        cov1 = np.where(std_mat1 == 0, 0, corr_mat1 * std_mat1)
+        cov2 = np.where(std_mat2 == 0, 0, corr_mat2 * std_mat2)
 
         n = n1 + n2
 
-- 
2.43.0


From 82b99ec3f767db7755526659f4fb5c501d9d0177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:42 +0000
Subject: [PATCH 60/85] fix: rows of columns with equal names can be counted
 with HyperLogLog

---
 dataprofiler/profilers/profile_builder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index e7f8001..507ffb3 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2259,6 +2259,8 @@ class StructuredProfiler(BaseProfiler):
                     )
             elif isinstance(self.hashed_row_object, HyperLogLog):
                 batch_size = 2048
+                if not rows.columns.is_unique:
+                    rows = rows.set_axis(range(rows.shape[1]), axis=1)
 
                 for batch_ind in range(len(data) // batch_size + 1):
                     start_ind = batch_ind * batch_size
-- 
2.43.0


From 5bfdfcaae9f001abb77eddadfef0770d146e3ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:37 +0000
Subject: [PATCH 61/85] fix: a validation run reports only its own
 configuration

---
 dataprofiler/validators/base_validators.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataprofiler/validators/base_validators.py b/dataprofiler/validators/base_validators.py
index 5b13d12..3778834 100644
--- a/dataprofiler/validators/base_validators.py
+++ b/dataprofiler/validators/base_validators.py
@@ -92,6 +92,9 @@ class Validator:
                 )
 
         self.config = config
+        # results of an earlier run do not belong to this configuration
+        self.validation_run = False
+        self.validation_report = dict()
 
         df_type = config.get("df_type", "").lower()
 
-- 
2.43.0


From f246dd7c34c1ad50b670bba4058e8305daaa902f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:55 +0000
Subject: [PATCH 62/85] fix: an unstructured profile without data can be saved

---
 dataprofiler/profilers/profile_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 507ffb3..63b255a 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -1101,7 +1101,7 @@ class BaseProfiler:
         # Restore data labelers for all columns
         for profiler in profilers:
 
-            if use_data_labeler:
+            if use_data_labeler and profiler is not None:
 
                 # profiles stored differently in Struct/Unstruct, this unifies
                 # label replacement
-- 
2.43.0


From 37581ba7aa2cee5f5baea6fc0c861332729113e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:55 +0000
Subject: [PATCH 63/85] fix: a profile keeps its data labeler when saving it
 fails

---
 dataprofiler/profilers/profile_builder.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 63b255a..61c6729 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -1139,11 +1139,12 @@ class BaseProfiler:
         data_dict["profiler_class"] = self.__class__.__name__
 
         # Pickle and save profile to disk
-        with open(filepath, "wb") as outfile:
-            pickle.dump(data_dict, outfile)
-
-        # Restore all data labelers
-        self._restore_data_labelers(data_labelers)
+        try:
+            with open(filepath, "wb") as outfile:
+                pickle.dump(data_dict, outfile)
+        finally:
+            # Restore all data labelers
+            self._restore_data_labelers(data_labelers)
 
     def _json_save_helper(self, filepath: str | None) -> None:
         """
-- 
2.43.0


From 0c785e6bf139d880d8c576596f5e62f645e7c335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:55 +0000
Subject: [PATCH 64/85] fix: merging a list of profiles keeps their data
 labelers

---
 dataprofiler/profilers/profiler_utils.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/dataprofiler/profilers/profiler_utils.py b/dataprofiler/profilers/profiler_utils.py
index e38e1b0..b2b703d 100644
--- a/dataprofiler/profilers/profiler_utils.py
+++ b/dataprofiler/profilers/profiler_utils.py
@@ -838,13 +838,21 @@ def merge_profile_list(
     # remove the labeler model from the first profile object
     # assuming that the labeler models are all the same across each profile
     # in the list
-    for profile in list_of_profiles:
-        data_labeler = profile._remove_data_labelers()
+    # profiles may share options, i.e. only the first one still has the labeler
+    given_profiles = list_of_profiles
+    data_labelers = [profile._remove_data_labelers() for profile in given_profiles]
+    data_labeler = data_labelers[0]
 
-    while len(list_of_profiles) > 1:
-        list_of_profiles_iterator = chunk(list_of_profiles, 2)
-        with mp.Pool(pool_count) as p:
-            list_of_profiles = p.starmap(merge, list_of_profiles_iterator)
+    try:
+        while len(list_of_profiles) > 1:
+            list_of_profiles_iterator = chunk(list_of_profiles, 2)
+            with mp.Pool(pool_count) as p:
+                list_of_profiles = p.starmap(merge, list_of_profiles_iterator)
+    finally:
+        # the given profiles stay usable
+        if data_labeler is not None:
+            for profile in given_profiles:
+                profile._restore_data_labelers(data_labeler)
 
     list_of_profiles[0]._restore_data_labelers(data_labeler)
     return list_of_profiles[0]
-- 
2.43.0


From 43b37f900d72553db28f059c69f7f3595558e48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:19 +0000
Subject: [PATCH 65/85] fix: merged columns report the number of quantiles
 asked for

---
 dataprofiler/profilers/numerical_column_stats.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index a66e7d3..ab854b4 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -282,6 +282,9 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
             other2._NumericStatsMixin__calculations,
         )
 
+        # Merge number of quantiles
+        self._num_quantiles = max(other1._num_quantiles, other2._num_quantiles)
+
         # Check and potentially override bias correction computation
         self.bias_correction = True
         if not other1.bias_correction or not other2.bias_correction:
-- 
2.43.0


From a56976c3332e187aa6bce13311815b9a9f3ee2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:47 +0000
Subject: [PATCH 66/85] fix: reports without disabled statistics keep the
 enabled ones

---
 .../profilers/float_column_profile.py         |  9 ++--
 dataprofiler/profilers/int_column_profile.py  |  5 +-
 .../profilers/numerical_column_stats.py       | 49 ++++++++++++++-----
 dataprofiler/profilers/text_column_profile.py |  9 ++--
 4 files changed, 46 insertions(+), 26 deletions(-)

diff --git a/dataprofiler/profilers/float_column_profile.py b/dataprofiler/profilers/float_column_profile.py
index ba35de3..3680b48 100644
--- a/dataprofiler/profilers/float_column_profile.py
+++ b/dataprofiler/profilers/float_column_profile.py
@@ -150,12 +150,9 @@ class FloatColumn(
         profile = self.profile
 
         if remove_disabled_flag:
-            profile_keys = list(profile.keys())
-            for profile_key in profile_keys:
-                if profile_key == "precision":
-                    if "precision" in calcs_dict_keys:
-                        continue
-                profile.pop(profile_key)
+            self._remove_disabled_numeric_stats(profile)
+            if "precision" not in calcs_dict_keys:
+                profile.pop("precision")
 
         return profile
 
diff --git a/dataprofiler/profilers/int_column_profile.py b/dataprofiler/profilers/int_column_profile.py
index 014465c..62d1013 100644
--- a/dataprofiler/profilers/int_column_profile.py
+++ b/dataprofiler/profilers/int_column_profile.py
@@ -70,7 +70,10 @@ class IntColumn(
             options should be excluded in the report.
         :type remove_disabled_flag: boolean
         """
-        return self.profile
+        profile = self.profile
+        if remove_disabled_flag:
+            self._remove_disabled_numeric_stats(profile)
+        return profile
 
     @classmethod
     def load_from_dict(cls, data, config: dict | None = None):
diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index ab854b4..76997c8 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -413,25 +413,48 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
         :return: Profile object pop'd based on values missing from __calculations
         :rtype: Profile
         """
-        calcs_dict_keys = self._NumericStatsMixin__calculations.keys()
         profile = self.profile()
 
         if remove_disabled_flag:
-            profile_keys = list(profile.keys())
-            for profile_key in profile_keys:
-                if profile_key in ["mode", "quantiles", "histogram"]:
-                    if "histogram_and_quantiles" in calcs_dict_keys:
-                        continue
-                elif profile_key == "stddev" and "variance" in calcs_dict_keys:
-                    continue
-                elif profile_key in calcs_dict_keys:
-                    continue
-                elif profile_key == "times":
-                    continue
-                profile.pop(profile_key)
+            self._remove_disabled_numeric_stats(profile)
 
         return profile
 
+    def _remove_disabled_numeric_stats(self, profile: dict) -> None:
+        """
+        Remove the disabled numeric statistics from a profile's report.
+
+        :param profile: report of the profile
+        :type profile: dict
+        :return: None
+        """
+        calculations = self._NumericStatsMixin__calculations
+        has_histogram = "histogram_and_quantiles" in calculations
+        is_enabled = {
+            "mean": "sum" in calculations,
+            "stddev": "variance" in calculations,
+            "histogram": has_histogram,
+            "quantiles": has_histogram,
+            "mode": has_histogram and self._mode_is_enabled,
+            "median": has_histogram and self._median_is_enabled,
+            "median_abs_deviation": has_histogram and self._median_abs_dev_is_enabled,
+        }
+        for calculation in [
+            "min",
+            "max",
+            "sum",
+            "variance",
+            "skewness",
+            "kurtosis",
+            "num_zeros",
+            "num_negatives",
+        ]:
+            is_enabled[calculation] = calculation in calculations
+
+        for profile_key in list(profile):
+            if not is_enabled.get(profile_key, True):
+                profile.pop(profile_key)
+
     def _reformat_numeric_stats_types_on_serialized_profiles(self):
         """Assistance function in the deserialization of profiler objects.
 
diff --git a/dataprofiler/profilers/text_column_profile.py b/dataprofiler/profilers/text_column_profile.py
index 318d1ff..0e9e2c8 100644
--- a/dataprofiler/profilers/text_column_profile.py
+++ b/dataprofiler/profilers/text_column_profile.py
@@ -75,12 +75,9 @@ class TextColumn(
         profile = self.profile
 
         if remove_disabled_flag:
-            profile_keys = list(profile.keys())
-            for profile_key in profile_keys:
-                if profile_key == "vocab":
-                    if "vocab" in calcs_dict_keys:
-                        continue
-                profile.pop(profile_key)
+            self._remove_disabled_numeric_stats(profile)
+            if "vocab" not in calcs_dict_keys:
+                profile.pop("vocab")
 
         return profile
 
-- 
2.43.0


From ac17372e53359036b6cf615b392c9a4da5322c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:07 +0000
Subject: [PATCH 67/85] fix: text reports without disabled statistics keep the
 counts of enabled ones

---
 .../profilers/unstructured_text_profile.py        | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/dataprofiler/profilers/unstructured_text_profile.py b/dataprofiler/profilers/unstructured_text_profile.py
index d53ca96..00c33ce 100644
--- a/dataprofiler/profilers/unstructured_text_profile.py
+++ b/dataprofiler/profilers/unstructured_text_profile.py
@@ -634,15 +634,12 @@ class TextProfiler:
         profile = self.profile
 
         if remove_disabled_flag:
-            profile_keys = list(profile.keys())
-            for profile_key in profile_keys:
-                if profile_key == "vocab":
-                    if "vocab" in calcs_dict_keys:
-                        continue
-                if profile_key == "words":
-                    if "words" in calcs_dict_keys:
-                        continue
-                profile.pop(profile_key)
+            if "vocab" not in calcs_dict_keys:
+                profile.pop("vocab")
+                profile.pop("vocab_count")
+            if "words" not in calcs_dict_keys:
+                profile.pop("words")
+                profile.pop("word_count")
 
         return profile
 
-- 
2.43.0


From 0c75ed3325e9e1d6945c2219cb146b1325edb5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:11 +0000
Subject: [PATCH 68/85] fix: unstructured profiles count texts with repeated
 row labels

---
 dataprofiler/profilers/profile_builder.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 61c6729..f1eb6f9 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -1513,7 +1513,8 @@ class UnstructuredProfiler(BaseProfiler):
             matches = data_subset.str.match(regex, flags=re.IGNORECASE)
 
             # Split series into None samples and true samples
-            true_sample_list.update(data_subset[~matches].index)
+            # (by position, as row labels may repeat)
+            true_sample_list.update(np.asarray(chunked_sample_ids)[~matches.values])
 
             # Ensure minimum number of true samples met
             # and if total_sample_size >= sample size, exit
@@ -1529,7 +1530,7 @@ class UnstructuredProfiler(BaseProfiler):
         true_sample_list = sorted(true_sample_list)  # type: ignore[assignment]
 
         # Split out true values for later utilization
-        data = data.loc[true_sample_list]
+        data = data.iloc[true_sample_list]
         total_empty = total_sample_size - len(true_sample_list)
 
         base_stats.update(
-- 
2.43.0


From 5e0880f0ebb464aff16c93d17966caa7fec19ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:11 +0000
Subject: [PATCH 69/85] fix: unstructured profiles without data can be reported

---
 dataprofiler/profilers/profile_builder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index f1eb6f9..d130cdf 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -1432,7 +1432,8 @@ class UnstructuredProfiler(BaseProfiler):
                 ("data_stats", OrderedDict()),
             ]
         )
-        report["data_stats"] = self._profile.report(remove_disabled_flag)
+        if self._profile is not None:
+            report["data_stats"] = self._profile.report(remove_disabled_flag)
         return _prepare_report(report, output_format, omit_keys)
 
     @classmethod
-- 
2.43.0


From 10aa69973be3a7268db2b05b8077c89153f063a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:19 +0000
Subject: [PATCH 70/85] fix: delimited files with lines of a single tab can be
 read

---
 dataprofiler/data_readers/csv_data.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dataprofiler/data_readers/csv_data.py b/dataprofiler/data_readers/csv_data.py
index 7e13d40..6ca3d2a 100644
--- a/dataprofiler/data_readers/csv_data.py
+++ b/dataprofiler/data_readers/csv_data.py
@@ -593,10 +593,9 @@ class CSVData(SpreadSheetDataMixin, BaseData):
                 count_delimiter_last = 0
                 for line in data_as_str.split("\n"):
                     if len(line) > 0:
-                        if (
-                            line.count(self._delimiter) == 1
-                            and line.strip()[-1] == self._delimiter
-                        ):
+                        if line.count(
+                            self._delimiter
+                        ) == 1 and line.strip().endswith(self._delimiter):
                             count_delimiter_last += 1
                         num_lines_read += 1
                 if count_delimiter_last == num_lines_read:
-- 
2.43.0


From 7d18fc2ac97778b95bb7d5d32b27f19bde5d767c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:31 +0000
Subject: [PATCH 71/85] fix: the regex model returns no result for no texts

---
 dataprofiler/labelers/regex_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/labelers/regex_model.py b/dataprofiler/labelers/regex_model.py
index c6a690c..cd40803 100644
--- a/dataprofiler/labelers/regex_model.py
+++ b/dataprofiler/labelers/regex_model.py
@@ -225,7 +225,7 @@ class RegexModel(BaseModel, metaclass=AutoSubRegistrationMeta):
         # Construct array initial regex predictions where background is
         # predicted.
         predictions = [np.empty((0,))] * 100
-        i = 0
+        i = -1
         for i, input_string in enumerate(data):
 
             # Double array size
-- 
2.43.0


From 3dab480a1454aa49d5a2ec0d6756fce6e7104c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:15 +0000
Subject: [PATCH 72/85] fix: lists that repeat different elements are not
 reported as unchanged

---
 dataprofiler/profilers/profiler_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/profiler_utils.py b/dataprofiler/profilers/profiler_utils.py
index b2b703d..597f568 100644
--- a/dataprofiler/profilers/profiler_utils.py
+++ b/dataprofiler/profilers/profiler_utils.py
@@ -475,7 +475,7 @@ def find_diff_of_lists_and_sets(
     Find the difference between two stats.
 
     If there is no difference, return
-    "unchanged". Remove duplicates and returns [unique values of stat1,
+    "unchanged". Otherwise returns [unique values of stat1,
     shared values, unique values of stat2].
 
     :param stat1: the first statistical input
@@ -488,7 +488,7 @@ def find_diff_of_lists_and_sets(
         pass
     elif stat1 is None or stat2 is None:
         return [stat1, stat2]
-    elif set(stat1) != set(stat2) or len(stat1) != len(stat2):
+    elif collections.Counter(stat1) != collections.Counter(stat2):
         temp_stat1 = list(copy.deepcopy(stat1))
         temp_stat2 = list(copy.deepcopy(stat2))
         shared = []
-- 
2.43.0


From 9eb3ac2d7f6c7dac04f864edde618fe58982032a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:48 +0000
Subject: [PATCH 73/85] fix: rows without any value do not count in pooled
 correlations

---
 dataprofiler/profilers/profile_builder.py | 24 +++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index d130cdf..93ede7a 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2401,7 +2401,7 @@ class StructuredProfiler(BaseProfiler):
             self.correlation_matrix,
             prev_dependent_properties["mean"],
             prev_dependent_properties["std"],
-            self.total_samples - self.row_is_null_count,
+            prev_dependent_properties["rows"],
             batch_corr,
             batch_properties["mean"],
             batch_properties["std"],
@@ -2426,8 +2426,8 @@ class StructuredProfiler(BaseProfiler):
         if corr_mat2 is not None and other_order:
             # other's columns in the order of this profile
             corr_mat2 = corr_mat2[np.ix_(other_order, other_order)]
-        n1 = self.total_samples - self.row_is_null_count
-        n2 = other.total_samples - other.row_is_null_count
+        n1 = self._get_correlated_row_count()
+        n2 = other._get_correlated_row_count()
         if n1 == 0:
             return corr_mat2
         if n2 == 0:
@@ -2482,6 +2482,18 @@ class StructuredProfiler(BaseProfiler):
             corr_mat1, mean1, std1, n1, corr_mat2, mean2, std2, n2
         )
 
+    def _get_correlated_row_count(self) -> int:
+        """
+        Return the number of sampled rows with a value in any column.
+
+        Row statistics may be disabled, hence these are not used.
+        """
+        null_rows: set | None = None
+        for column in self._profile:
+            column_nulls = set().union(*column.null_types_index.values())
+            null_rows = column_nulls if null_rows is None else null_rows & column_nulls
+        return self._min_col_samples_used - len(null_rows or ())
+
     def _get_correlation_dependent_properties(self, batch: dict = None) -> dict:
         """
         Obtain mean/stddev for calculating correlation.
@@ -2500,6 +2512,10 @@ class StructuredProfiler(BaseProfiler):
             "std": np.full(len(self._profile), np.nan),
             "count": np.full(len(self._profile), np.nan),
         }
+        n_rows = 0
+        if batch is None:
+            n_rows = self._get_correlated_row_count()
+            dependent_properties["rows"] = n_rows
         for id in range(len(self._profile)):
             compiler = self._profile[id]
             data_type_compiler = compiler.profiles["data_type_profile"]
@@ -2516,7 +2532,7 @@ class StructuredProfiler(BaseProfiler):
                     dependent_properties["std"][id] = np.sqrt(
                         np.divide(
                             data_type_profiler._biased_variance * n,
-                            max(self.total_samples - self.row_is_null_count - 1, 1),
+                            max(n_rows - 1, 1),
                         )
                     )
                     dependent_properties["count"][id] = n
-- 
2.43.0


From 05411c1f207c30524cc727be0674becb2ce2739a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:59 +0000
Subject: [PATCH 74/85] fix: merged correlations use the deviations of the rows
 they were computed from

---
 dataprofiler/profilers/profile_builder.py | 38 +++--------------------
 1 file changed, 5 insertions(+), 33 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 93ede7a..590734e 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2445,39 +2445,11 @@ class StructuredProfiler(BaseProfiler):
         if (col_ids1 != col_ids2).any():
             return None
 
-        mean1 = np.array(
-            [
-                self._profile[idx].profile["statistics"]["mean"]
-                if idx in col_ids1
-                else np.nan
-                for idx in range(len(self._profile))
-            ]
-        )
-        std1 = np.array(
-            [
-                self._profile[idx].profile["statistics"]["stddev"]
-                if idx in col_ids1
-                else np.nan
-                for idx in range(len(self._profile))
-            ]
-        )
-
-        mean2 = np.array(
-            [
-                other._profile[other_order[idx]].profile["statistics"]["mean"]
-                if idx in col_ids2
-                else np.nan
-                for idx in range(len(self._profile))
-            ]
-        )
-        std2 = np.array(
-            [
-                other._profile[other_order[idx]].profile["statistics"]["stddev"]
-                if idx in col_ids2
-                else np.nan
-                for idx in range(len(self._profile))
-            ]
-        )
+        # deviations over the rows of the correlations, i.e. with imputed nulls
+        properties1 = self._get_correlation_dependent_properties()
+        properties2 = other._get_correlation_dependent_properties()
+        mean1, std1 = properties1["mean"], properties1["std"]
+        mean2, std2 = properties2["mean"][other_order], properties2["std"][other_order]
         return self._merge_correlation_helper(
             corr_mat1, mean1, std1, n1, corr_mat2, mean2, std2, n2
         )
-- 
2.43.0


From b929bc19405658c53279cdee724c62993330a4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:46 +0000
Subject: [PATCH 75/85] fix: the chi-squared matrix follows the columns when
 one of the merged profiles has only nulls

---
 dataprofiler/profilers/profile_builder.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 590734e..5387978 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -1846,11 +1846,9 @@ class StructuredProfiler(BaseProfiler):
             chi2_mat2 = other.chi2_matrix
             n1 = self.total_samples - self.row_is_null_count
             n2 = other.total_samples - other.row_is_null_count
-            if n1 == 0:
+            if not self._profile:
                 merged_profile.chi2_matrix = chi2_mat2
-            elif n2 == 0:
-                merged_profile.chi2_matrix = chi2_mat1
-            elif chi2_mat1 is None or chi2_mat2 is None:
+            elif n1 and n2 and (chi2_mat1 is None or chi2_mat2 is None):
                 merged_profile.chi2_matrix = None
             else:
                 merged_profile.chi2_matrix = merged_profile._update_chi2()
-- 
2.43.0


From 1d6ff1fefa4c4c70f9e0dc51c9108979cf2031ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:12 +0000
Subject: [PATCH 76/85] fix: correlations of selected columns are found
 whatever their capitalisation, and the lookup no longer adds columns to the
 profile

---
 dataprofiler/profilers/profile_builder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 5387978..8a6d1d1 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2340,7 +2340,9 @@ class StructuredProfiler(BaseProfiler):
         column_ids = list(range(len(self._profile)))
         if columns is not None:
             column_ids = [
-                idx for col_name in columns for idx in self._col_name_to_idx[col_name]
+                idx
+                for col_name in columns
+                for idx in self._col_name_to_idx.get(col_name.lower(), [])
             ]
         # the samples are still needed by the other statistics
         clean_samples = clean_samples.copy()
-- 
2.43.0


From db0d3b352943ac5c7357200f14f59f80a2db2136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:09 +0000
Subject: [PATCH 77/85] fix: user defined null values survive saving a profile
 as JSON

---
 dataprofiler/profilers/profiler_options.py | 35 ++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/dataprofiler/profilers/profiler_options.py b/dataprofiler/profilers/profiler_options.py
index 4ed5124..6911dcd 100644
--- a/dataprofiler/profilers/profiler_options.py
+++ b/dataprofiler/profilers/profiler_options.py
@@ -1492,6 +1492,41 @@ class StructuredOptions(BaseOption["StructuredOptions"]):
         self.column_null_values = column_null_values
         self.sampling_ratio = sampling_ratio
 
+    @classmethod
+    def load_from_dict(cls, data, config: dict | None = None) -> StructuredOptions:
+        """
+        Parse attribute from json dictionary into self.
+
+        :param data: dictionary with attributes and values.
+        :type data: dict[string, Any]
+        :param config: config to override loading options params from dictionary
+        :type config: Dict | None
+
+        :return: Options with attributes populated.
+        :rtype: StructuredOptions
+        """
+
+        def load_null_values(null_values: dict) -> dict:
+            return {
+                key: re.RegexFlag(value) if value else 0
+                for key, value in null_values.items()
+            }
+
+        data = dict(data)
+        null_values = data.pop("null_values", None)
+        column_null_values = data.pop("column_null_values", None)
+        option = cast(StructuredOptions, super().load_from_dict(data, config))
+
+        # JSON keeps neither integer keys nor regex flags
+        if null_values is not None:
+            option.null_values = load_null_values(null_values)
+        if column_null_values is not None:
+            option.column_null_values = {
+                int(key): load_null_values(value)
+                for key, value in column_null_values.items()
+            }
+        return option
+
     @property
     def enabled_profiles(self) -> list[str]:
         """Return a list of the enabled profilers for columns."""
-- 
2.43.0


From ebc3d9c78a454df8a22d9cbd1f0093ba48f1c27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:16 +0000
Subject: [PATCH 78/85] fix: differences of word counts add up the spellings of
 a word when only one profile is case sensitive

---
 .../profilers/unstructured_text_profile.py    | 27 ++++++++++++-------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/dataprofiler/profilers/unstructured_text_profile.py b/dataprofiler/profilers/unstructured_text_profile.py
index 00c33ce..c62b2be 100644
--- a/dataprofiler/profilers/unstructured_text_profile.py
+++ b/dataprofiler/profilers/unstructured_text_profile.py
@@ -577,6 +577,13 @@ class TextProfiler:
 
         return merged_profile
 
+    def _get_lower_case_word_count(self) -> Counter:
+        """Return the word counts with the spellings of a word counted together."""
+        word_count: Counter = Counter()
+        for word, count in self.word_count.items():
+            word_count[word.lower()] += count
+        return word_count
+
     def diff(self, other_profile: TextProfiler, options: dict = None) -> dict:
         """
         Find the differences for two unstructured text profiles.
@@ -595,18 +602,18 @@ class TextProfiler:
                 "and '{}'".format(cls.__name__, other_profile.__class__.__name__)
             )
 
-        self_words = list(self.word_count.keys())
-        self_word_count = dict(self.word_count.most_common(self._top_k_words))
-
-        other_words = list(other_profile.word_count.keys())
-        other_word_count = dict(other_profile.word_count.most_common(self._top_k_words))
-
+        self_count = self.word_count
+        other_count = other_profile.word_count
         if self._is_case_sensitive and not other_profile._is_case_sensitive:
-            self_words = [each_string.lower() for each_string in self_words]
-            self_word_count = {k.lower(): v for k, v in self_word_count.items()}
+            self_count = self._get_lower_case_word_count()
         if not self._is_case_sensitive and other_profile._is_case_sensitive:
-            other_words = [each_string.lower() for each_string in other_words]
-            other_word_count = {k.lower(): v for k, v in other_word_count.items()}
+            other_count = other_profile._get_lower_case_word_count()
+
+        self_words = list(self_count.keys())
+        self_word_count = dict(self_count.most_common(self._top_k_words))
+
+        other_words = list(other_count.keys())
+        other_word_count = dict(other_count.most_common(self._top_k_words))
 
         diff: dict = {}
         diff["vocab"] = profiler_utils.find_diff_of_lists_and_sets(
-- 
2.43.0


From 9e1aa92934351f308dda2bb824047b607eb75253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:35 +0000
Subject: [PATCH 79/85] fix: float profiles holding infinities can be merged

---
 dataprofiler/profilers/histogram_utils.py        | 4 ++--
 dataprofiler/profilers/numerical_column_stats.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/dataprofiler/profilers/histogram_utils.py b/dataprofiler/profilers/histogram_utils.py
index df230c4..ec6f657 100644
--- a/dataprofiler/profilers/histogram_utils.py
+++ b/dataprofiler/profilers/histogram_utils.py
@@ -29,7 +29,7 @@ def _get_maximum_from_profile(profile):
     """
     return (
         profile.max
-        if profile.max is not None
+        if profile.max is not None and np.isfinite(profile.max)
         else profile._stored_histogram["histogram"]["bin_edges"][-1]
     )
 
@@ -45,7 +45,7 @@ def _get_minimum_from_profile(profile):
     """
     return (
         profile.min
-        if profile.min is not None
+        if profile.min is not None and np.isfinite(profile.min)
         else profile._stored_histogram["histogram"]["bin_edges"][0]
     )
 
diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index 76997c8..aa635d3 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -200,7 +200,7 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
         # between two arrays
         global_min_of_histogram_edges = (
             float(self.min)
-            if self.min is not None
+            if self.min is not None and np.isfinite(self.min)
             else min(
                 other1._stored_histogram["histogram"]["bin_edges"][0],
                 other2._stored_histogram["histogram"]["bin_edges"][0],
@@ -209,7 +209,7 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
 
         global_max_of_histogram_edges = (
             float(self.max)
-            if self.max is not None
+            if self.max is not None and np.isfinite(self.max)
             else max(
                 other1._stored_histogram["histogram"]["bin_edges"][-1],
                 other2._stored_histogram["histogram"]["bin_edges"][-1],
-- 
2.43.0


From 5fc9673e4f76153b647bffc0978bab10798c899c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:19 +0000
Subject: [PATCH 80/85] fix: sum of opposite infinities in different batches is
 undefined

---
 dataprofiler/profilers/numerical_column_stats.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index aa635d3..76637cc 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -1802,6 +1802,9 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
         subset_properties: dict,
     ) -> None:
         if np.isinf(self.sum) or (np.isnan(self.sum) and self.match_count > 0):
+            # an infinity of the other sign still makes it undefined
+            if (df_series == -self.sum).any():
+                self.sum = np.nan
             return
 
         sum_value = df_series.sum()
-- 
2.43.0


From 4da5ee1272470df9a7905c8ac1b024a980e34d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:23 +0000
Subject: [PATCH 81/85] fix: missing values graph marks the rows that are null

The end of a block of nulls was kept for the next block, so single nulls
between others were drawn over rows that are not null.
---
 dataprofiler/reports/graphs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataprofiler/reports/graphs.py b/dataprofiler/reports/graphs.py
index 1f0b430..58f02d8 100644
--- a/dataprofiler/reports/graphs.py
+++ b/dataprofiler/reports/graphs.py
@@ -320,6 +320,7 @@ def plot_col_missing_values(
                         )
                     )
                     y_start = next_value
+                    y_end = next_value
                 null_ind += 1
             y_end = null_indexes[-1]
             # plot the patch of the last null value
-- 
2.43.0


From 9193aacefdf634263643161e757fff16cfd80ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:23 +0000
Subject: [PATCH 82/85] fix: histogram graphs come in the order of the columns

---
 dataprofiler/reports/graphs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/reports/graphs.py b/dataprofiler/reports/graphs.py
index 58f02d8..6b3b164 100644
--- a/dataprofiler/reports/graphs.py
+++ b/dataprofiler/reports/graphs.py
@@ -83,7 +83,7 @@ def plot_histograms(
             inds_to_graph.extend(profiler._col_name_to_idx[col])
 
     # sort the column indexes to be in the same order as the original profiler.
-    sorted(inds_to_graph)
+    inds_to_graph = sorted(inds_to_graph)
 
     # get all columns which are of type [int, float]
     def is_index_graphable_column(ind_to_graph: int) -> bool:
-- 
2.43.0


From 33db6d2b7723667095092ba4432f8aaaf2b761e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:02 +0000
Subject: [PATCH 83/85] fix: signed node ids of a graph file are integers

---
 dataprofiler/data_readers/graph_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/data_readers/graph_data.py b/dataprofiler/data_readers/graph_data.py
index 337408a..9538146 100644
--- a/dataprofiler/data_readers/graph_data.py
+++ b/dataprofiler/data_readers/graph_data.py
@@ -300,7 +300,7 @@ class GraphData(BaseData):
     def check_integer(self, string: str) -> Union[int, str]:
         """Check whether string is integer and output integer."""
         stringVal = string
-        if string[0] == ("-", "+"):
+        if string[:1] in ("-", "+"):
             stringVal = string[1:]
         if stringVal.isdigit():
             return int(string)
-- 
2.43.0


From 695f3b8c42b145126e2bc332032ea5fd217ed787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:02 +0000
Subject: [PATCH 84/85] fix: node columns of a graph file are not edge
 attributes

Every column was turned into a number, so files with named nodes could not
be loaded and edges carried their own end points as attributes.
---
 dataprofiler/data_readers/graph_data.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dataprofiler/data_readers/graph_data.py b/dataprofiler/data_readers/graph_data.py
index 9538146..d7eaef5 100644
--- a/dataprofiler/data_readers/graph_data.py
+++ b/dataprofiler/data_readers/graph_data.py
@@ -270,13 +270,12 @@ class GraphData(BaseData):
                 if csv_as_list[line_index][column] is None:
                     continue
                 if (
-                    column is not self._source_node
-                    or column is not self._destination_node
+                    column != self._source_node and column != self._destination_node
                 ) and self._column_names is not None:
                     attributes[self._column_names[column]] = float(
                         csv_as_list[line_index][column]
                     )
-                elif column is self._source_node or column is self._destination_node:
+                elif column in (self._source_node, self._destination_node):
                     networkx_graph.add_node(
                         self.check_integer(csv_as_list[line_index][column])
                     )
-- 
2.43.0


From 04cba97a487884924e3ce5cd34e1494c2eecd324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:02 +0000
Subject: [PATCH 85/85] fix: edges of a graph file may lack an attribute

---
 dataprofiler/data_readers/graph_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/data_readers/graph_data.py b/dataprofiler/data_readers/graph_data.py
index d7eaef5..c402338 100644
--- a/dataprofiler/data_readers/graph_data.py
+++ b/dataprofiler/data_readers/graph_data.py
@@ -267,7 +267,7 @@ class GraphData(BaseData):
             # fetch attributes in columns
             attributes = dict()
             for column in range(0, len(csv_as_list[0])):
-                if csv_as_list[line_index][column] is None:
+                if csv_as_list[line_index][column] in (None, ""):
                     continue
                 if (
                     column != self._source_node and column != self._destination_node
-- 
2.43.0

