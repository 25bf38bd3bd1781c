From c9deb6a9ab93a39ec25d59fd1a4842adb8be3430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:18 +0000
Subject: [PATCH 01/53] fix: a minimum or maximum of 0 is no longer forgotten
 by the next batch

---
 dataprofiler/profilers/numerical_column_stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index fa0666a..96f30f7 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -1770,7 +1770,7 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
         subset_properties: dict,
     ) -> None:
         min_value = df_series.min()
-        self.min = min_value if not self.min else min(self.min, min_value)
+        self.min = min_value if self.min is None else min(self.min, min_value)
         subset_properties["min"] = min_value
 
     @BaseColumnProfiler._timeit(name="max")
@@ -1781,7 +1781,7 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
         subset_properties: dict,
     ) -> None:
         max_value = df_series.max()
-        self.max = max_value if not self.max else max(self.max, max_value)
+        self.max = max_value if self.max is None else max(self.max, max_value)
         subset_properties["max"] = max_value
 
     @BaseColumnProfiler._timeit(name="sum")
-- 
2.43.0


From a5b2a86f4dbb56c0dbc4cc605d5efd2684f80dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:35 +0000
Subject: [PATCH 02/53] fix: kurtosis of a constant column no longer depends on
 how the data was batched

---
 dataprofiler/profilers/numerical_column_stats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index 96f30f7..eef9b03 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -1022,7 +1022,8 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
         M2_2 = match_count2 * biased_variance2
         M2 = M2_1 + M2_2 + delta**2 * match_count1 * match_count2 / N
         if not M2:
-            return 0.0
+            # same as `biased_kurt` of a constant dataset
+            return -3.0
 
         M3_1: np.float64 = biased_skewness1 * np.sqrt(M2_1**3) / np.sqrt(match_count1)
         M3_2: np.float64 = biased_skewness2 * np.sqrt(M2_2**3) / np.sqrt(match_count2)
-- 
2.43.0


From f4033583f71c99a578d4b1a7e0c0d067f69cedd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:35 +0000
Subject: [PATCH 03/53] fix: precision variance of a float column is merged
 with the counts before the batch

---
 dataprofiler/profilers/float_column_profile.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dataprofiler/profilers/float_column_profile.py b/dataprofiler/profilers/float_column_profile.py
index bc426a4..e9a0b51 100644
--- a/dataprofiler/profilers/float_column_profile.py
+++ b/dataprofiler/profilers/float_column_profile.py
@@ -378,9 +378,6 @@ class FloatColumn(
             self._precision["max"] = max(
                 self._precision["max"], subset_precision["max"]
             )
-            self._precision["sum"] += subset_precision["sum"]
-            self._precision["sample_size"] += subset_precision["sample_size"]
-
             self._precision["biased_var"] = self._merge_biased_variance(
                 self._precision["sample_size"],
                 self._precision["biased_var"],
@@ -390,6 +387,8 @@ class FloatColumn(
                 subset_precision["mean"],
             )
 
+            self._precision["sum"] += subset_precision["sum"]
+            self._precision["sample_size"] += subset_precision["sample_size"]
             self._precision["mean"] = (
                 self._precision["sum"] / self._precision["sample_size"]
             )
-- 
2.43.0


From 25673f9d4fb187b57576a654ab3437bf6217876e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:35 +0000
Subject: [PATCH 04/53] fix: merged text columns keep their string/text type

---
 dataprofiler/profilers/text_column_profile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dataprofiler/profilers/text_column_profile.py b/dataprofiler/profilers/text_column_profile.py
index bea8dbd..5969a41 100644
--- a/dataprofiler/profilers/text_column_profile.py
+++ b/dataprofiler/profilers/text_column_profile.py
@@ -66,6 +66,8 @@ class TextColumn(
         if "vocab" in merged_profile.__calculations:
             merged_profile.vocab = self.vocab.copy()
             merged_profile._update_vocab(other.vocab)
+        if merged_profile.max:
+            merged_profile.type = "string" if merged_profile.max <= 255 else "text"
         return merged_profile
 
     def report(self, remove_disabled_flag: bool = False) -> dict:
-- 
2.43.0


From dc668718a9c7bf818db153631e31ad314c4534b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:48 +0000
Subject: [PATCH 05/53] fix: histogram of a merged profile can be updated with
 further data

---
 dataprofiler/profilers/numerical_column_stats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index eef9b03..0293d9d 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -1241,7 +1241,8 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
 
     def _histogram_to_array(self) -> np.ndarray:
         # Extend histogram to array format
-        bin_counts = self._stored_histogram["histogram"]["bin_counts"]
+        # merged profiles store their counts as floats
+        bin_counts = self._stored_histogram["histogram"]["bin_counts"].astype(int)
         bin_edges = self._stored_histogram["histogram"]["bin_edges"]
         is_bin_non_zero = bin_counts[:-1] > 0
         bin_left_edge = bin_edges[:-2][is_bin_non_zero]
-- 
2.43.0


From a1f444bd404b5855b83aa8fa8dc36fdc0aab0bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:48 +0000
Subject: [PATCH 06/53] fix: merging with a column without a histogram keeps
 the other histogram

---
 dataprofiler/profilers/numerical_column_stats.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index 0293d9d..94618f3 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -345,12 +345,13 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
         if "histogram_and_quantiles" in self.__calculations.keys():
             if other1._has_histogram and other2._has_histogram:
                 self._add_helper_merge_profile_histograms(other1, other2)
-            elif not other2._has_histogram:
-                self.histogram_methods = other1.histogram_methods
-                self.quantiles = other1.quantiles
             else:
-                self.histogram_methods = other2.histogram_methods
-                self.quantiles = other2.quantiles
+                other = other2 if other2._has_histogram else other1
+                self.histogram_bin_method_names = list(other.histogram_bin_method_names)
+                self.user_set_histogram_bin = other.user_set_histogram_bin
+                self._stored_histogram = copy.deepcopy(other._stored_histogram)
+                self.histogram_methods = copy.deepcopy(other.histogram_methods)
+                self.quantiles = copy.deepcopy(other.quantiles)
 
         # Merge max k mode count
         self._top_k_modes = max(other1._top_k_modes, other2._top_k_modes)
-- 
2.43.0


From f515a288a13471ccf795ca4e1c1857509a34d9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:53 +0000
Subject: [PATCH 07/53] fix: a batch whose column names differ only in case
 updates the profile

The schema check accepts it, but the column profilers raised after the
profile had already been half updated.
---
 dataprofiler/profilers/profile_builder.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 6e51265..09abfd1 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -155,11 +155,13 @@ class StructuredColProfiler:
         if self.name is None:
             self.name = clean_sampled_df.name
         elif self.name != clean_sampled_df.name:
-            raise ValueError(
-                "Column names have changed, col {} does not match prior name {}",
-                clean_sampled_df.name,
-                self.name,
-            )
+            # columns of a batch are matched to the profile ignoring case
+            if str(self.name).lower() != str(clean_sampled_df.name).lower():
+                raise ValueError(
+                    "Column names have changed, col {} does not match prior "
+                    "name {}".format(clean_sampled_df.name, self.name)
+                )
+            clean_sampled_df = clean_sampled_df.rename(self.name)
 
         # First run, create the compilers
         if self.profiles is None or len(self.profiles) == 0:
-- 
2.43.0


From 1dab210e4255b3429a807e256594ec19c28694a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:11 +0000
Subject: [PATCH 08/53] fix: keep column values in data order for any index

The non-null values were collected by index label in a set, so a batch
with a shifted index was profiled in scrambled order (wrong `order`) and a
repeated index label duplicated rows and corrupted the null count.
---
 dataprofiler/profilers/profile_builder.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 09abfd1..41c0d2f 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -632,7 +632,7 @@ class StructuredColProfiler:
             matches = df_subset.str.match(regex, flags=re.IGNORECASE)
 
             # Split series into None samples and true samples
-            true_sample_set.update(df_subset[~matches].index)
+            true_sample_set.update(np.asarray(chunked_sample_ids)[~matches].tolist())
 
             # Iterate over all the Nones
             for index, cell in df_subset[matches].items():
@@ -650,15 +650,11 @@ class StructuredColProfiler:
         if sample_ids is None:
             sample_ind_generator.close()
 
-        # If min_true_samples exists, sort
-        true_sample_list = (
-            sorted(true_sample_set)
-            if min_true_samples > 0 or sample_ids is None
-            else list(true_sample_set)
-        )
+        # Keep the values in the order in which they occur in the data
+        true_sample_list = sorted(true_sample_set)
 
         # Split out true values for later utilization
-        df_series = df_series.loc[true_sample_list]
+        df_series = df_series.iloc[true_sample_list]
         total_na = total_sample_size - len(true_sample_list)
 
         rng = rng_utils.get_random_number_generator()
-- 
2.43.0


From 7bea9efaa2d91a013ec1a3711ca4f6f57709f445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:11 +0000
Subject: [PATCH 09/53] fix: text profiles of data with repeated index labels
 count each line once

---
 dataprofiler/profilers/profile_builder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 41c0d2f..68a83bc 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -1503,7 +1503,7 @@ class UnstructuredProfiler(BaseProfiler):
             matches = data_subset.str.match(regex, flags=re.IGNORECASE)
 
             # Split series into None samples and true samples
-            true_sample_list.update(data_subset[~matches].index)
+            true_sample_list.update(np.asarray(chunked_sample_ids)[~matches].tolist())
 
             # Ensure minimum number of true samples met
             # and if total_sample_size >= sample size, exit
@@ -1519,7 +1519,7 @@ class UnstructuredProfiler(BaseProfiler):
         true_sample_list = sorted(true_sample_list)  # type: ignore[assignment]
 
         # Split out true values for later utilization
-        data = data.loc[true_sample_list]
+        data = data.iloc[true_sample_list]
         total_empty = total_sample_size - len(true_sample_list)
 
         base_stats.update(
-- 
2.43.0


From 40edd6b7f93a589f528b10114d59c85571f70d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:11 +0000
Subject: [PATCH 10/53] fix: unique rows are counted independently of column
 order and case

A batch or merged profile with reordered columns hashed equal rows
differently; hyperloglog also failed on repeated column names.
---
 dataprofiler/profilers/profile_builder.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 68a83bc..a3e78d2 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2218,30 +2218,37 @@ class StructuredProfiler(BaseProfiler):
             )
 
         if self.options.row_statistics.unique_count.is_enabled:
+            # A row is the same row whatever order or letter case the columns
+            # of its batch come in (and to_json requires unique names)
+            col_order = sorted(
+                range(data.shape[1]), key=lambda i: str(data.columns[i]).lower()
+            )
+            rows = data.iloc[:, col_order]
+            rows.columns = range(rows.shape[1])
             if isinstance(self.hashed_row_object, dict):
                 try:
                     self.hashed_row_object.update(
                         dict.fromkeys(
-                            pd.util.hash_pandas_object(data, index=False), True
+                            pd.util.hash_pandas_object(rows, index=False), True
                         )
                     )
                 except TypeError:
                     self.hashed_row_object.update(
                         dict.fromkeys(
-                            pd.util.hash_pandas_object(data.astype(str), index=False),
+                            pd.util.hash_pandas_object(rows.astype(str), index=False),
                             True,
                         )
                     )
             elif isinstance(self.hashed_row_object, HyperLogLog):
                 batch_size = 2048
 
-                for batch_ind in range(len(data) // batch_size + 1):
+                for batch_ind in range(len(rows) // batch_size + 1):
                     start_ind = batch_ind * batch_size
-                    if start_ind >= len(data):
+                    if start_ind >= len(rows):
                         break
                     end_ind = (batch_ind + 1) * batch_size
                     for record in (
-                        data[start_ind : min(end_ind, len(data))]
+                        rows[start_ind : min(end_ind, len(rows))]
                         .to_json(orient="records", lines=True)
                         .splitlines()
                     ):
-- 
2.43.0


From 1fff0516fc66d91135db30e34dddf21b64f5fbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:11 +0000
Subject: [PATCH 11/53] fix: merging profiles with hyperloglog row counts no
 longer changes the operand

---
 dataprofiler/profilers/profile_builder.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index a3e78d2..d211d2a 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -1803,8 +1803,10 @@ class StructuredProfiler(BaseProfiler):
                 elif isinstance(self.hashed_row_object, HyperLogLog) and isinstance(
                     other.hashed_row_object, HyperLogLog
                 ):
-                    self.hashed_row_object.merge(other.hashed_row_object),
-                    merged_profile.hashed_row_object = self.hashed_row_object
+                    merged_profile.hashed_row_object = copy.deepcopy(
+                        self.hashed_row_object
+                    )
+                    merged_profile.hashed_row_object.merge(other.hashed_row_object)
 
         self_to_other_idx = self._get_and_validate_schema_mapping(
             self._col_name_to_idx, other._col_name_to_idx
-- 
2.43.0


From b9b80387eb7ad04073f61f287288b909764ccebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:36 +0000
Subject: [PATCH 12/53] fix: the index shift of an earlier batch is not applied
 to a later one

---
 dataprofiler/profilers/profile_builder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index d211d2a..abb3dd6 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -444,6 +444,7 @@ class StructuredColProfiler:
         base_nti = base_stats["null_types"]
 
         # Check if indices overlap, if they do, adjust attributes accordingly
+        self._index_shift = None
         if profiler_utils.overlap(self._min_id, self._max_id, base_min, base_max):
             warnings.warn(
                 f"Overlapping indices detected. To resolve, indices "
-- 
2.43.0


From ad428a871190f340147b107012b78a59bd2aebc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:36 +0000
Subject: [PATCH 13/53] fix: per-column null values follow the column when a
 batch is reordered

---
 dataprofiler/profilers/profile_builder.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index abb3dd6..c71bd7a 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2925,7 +2925,7 @@ class StructuredProfiler(BaseProfiler):
                     null_values: dict = self._profile[prof_idx]._null_values.copy()
                     if self.options.column_null_values:
                         null_values.update(
-                            self.options.column_null_values.get(col_idx, {})
+                            self.options.column_null_values.get(prof_idx, {})
                         )
 
                     multi_process_dict[col_idx] = pool.apply_async(
@@ -2971,7 +2971,7 @@ class StructuredProfiler(BaseProfiler):
                     null_values = self._profile[prof_idx]._null_values.copy()
                     if self.options.column_null_values:
                         null_values.update(
-                            self.options.column_null_values.get(col_idx, {})
+                            self.options.column_null_values.get(prof_idx, {})
                         )
 
                     clean_sampled_dict[prof_idx], base_stats = self._profile[
@@ -2994,7 +2994,7 @@ class StructuredProfiler(BaseProfiler):
 
                 null_values = self._profile[prof_idx]._null_values.copy()
                 if self.options.column_null_values:
-                    null_values.update(self.options.column_null_values.get(col_idx, {}))
+                    null_values.update(self.options.column_null_values.get(prof_idx, {}))
 
                 clean_sampled_dict[prof_idx], base_stats = self._profile[
                     prof_idx
-- 
2.43.0


From 48714e8246533922fb95e092d79bde9b714721dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:36 +0000
Subject: [PATCH 14/53] fix: null ratio of a column covers all of its data, not
 only the last batch

---
 dataprofiler/profilers/profile_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index c71bd7a..f16a9a4 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -434,7 +434,7 @@ class StructuredColProfiler:
         self._last_batch_size = base_stats["sample_size"]
         self.sample = base_stats["sample"]
         self.null_count += base_stats["null_count"]
-        self.null_ratio = base_stats["null_count"] / base_stats["sample_size"]
+        self.null_ratio = self.null_count / self.sample_size
         self.null_types = profiler_utils._combine_unique_sets(
             self.null_types, list(base_stats["null_types"].keys())
         )
-- 
2.43.0


From f911254325b875f22996d9081e93e7c9940d2cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:22 +0000
Subject: [PATCH 15/53] fix: diff with a categorical column without values no
 longer fails

---
 dataprofiler/profilers/categorical_column_profile.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/categorical_column_profile.py b/dataprofiler/profilers/categorical_column_profile.py
index 1ca6309..ff1f9bc 100644
--- a/dataprofiler/profilers/categorical_column_profile.py
+++ b/dataprofiler/profilers/categorical_column_profile.py
@@ -318,8 +318,11 @@ class CategoricalColumn(BaseColumnProfiler["CategoricalColumn"]):
 
             total_psi = 0.0
             for iter_key in self_cat_count.keys():
-                percent_self = self_cat_count[iter_key] / self.sample_size
-                percent_other = other_cat_count[iter_key] / other_profile.sample_size
+                # a profile without values has no categories, so 0 of each
+                percent_self = self_cat_count[iter_key] / max(self.sample_size, 1)
+                percent_other = other_cat_count[iter_key] / max(
+                    other_profile.sample_size, 1
+                )
                 if (percent_other != 0) and (percent_self != 0):
                     total_psi += (percent_other - percent_self) * math.log(
                         percent_other / percent_self
-- 
2.43.0


From 5fbf9dd78f8f7f5117d10d955481eeafbaf21f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:22 +0000
Subject: [PATCH 16/53] fix: merged categorical columns keep the top k option

---
 dataprofiler/profilers/categorical_column_profile.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataprofiler/profilers/categorical_column_profile.py b/dataprofiler/profilers/categorical_column_profile.py
index ff1f9bc..2783137 100644
--- a/dataprofiler/profilers/categorical_column_profile.py
+++ b/dataprofiler/profilers/categorical_column_profile.py
@@ -104,6 +104,7 @@ class CategoricalColumn(BaseColumnProfiler["CategoricalColumn"]):
 
         merged_profile = CategoricalColumn(None)
         BaseColumnProfiler._add_helper(merged_profile, self, other)
+        merged_profile._top_k_categories = self._top_k_categories
 
         self._merge_calculations(
             merged_profile.__calculations, self.__calculations, other.__calculations
-- 
2.43.0


From 4c70cc0dd1fbea25055d9746975f7420603bf9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:22 +0000
Subject: [PATCH 17/53] fix: merged count-min-sketch columns can be updated and
 merged again

---
 dataprofiler/profilers/categorical_column_profile.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/categorical_column_profile.py b/dataprofiler/profilers/categorical_column_profile.py
index 2783137..73b1d01 100644
--- a/dataprofiler/profilers/categorical_column_profile.py
+++ b/dataprofiler/profilers/categorical_column_profile.py
@@ -117,6 +117,8 @@ class CategoricalColumn(BaseColumnProfiler["CategoricalColumn"]):
             cms_max_num_heavy_hitters: int = min(
                 self._cms_max_num_heavy_hitters, other._cms_max_num_heavy_hitters
             )
+            merged_profile.cms_num_hashes = self.cms_num_hashes
+            merged_profile.cms_num_buckets = self.cms_num_buckets
 
             (
                 merged_profile.cms,
@@ -566,12 +568,12 @@ class CategoricalColumn(BaseColumnProfiler["CategoricalColumn"]):
             cms3.merge(cms1)
             cms3.merge(cms2)
         except ValueError as err:
-            raise err(
+            raise ValueError(
                 """Incompatible sketch configuration. When merging two sketches,
                 they must have the same number of buckets and hashes,
                 which are defined by cms_confidence and cms_relative_error options,
                 respectively."""
-            )
+            ) from err
 
         # re-collecting the estimates of non intersecting categories before
         # re-applying heavy-hitters to the aggregate profile.
-- 
2.43.0


From 4ae45c7ec6c819de10b44dae4c27b34db0ada752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:22 +0000
Subject: [PATCH 18/53] fix: profiles using count-min-sketch categories can be
 saved

---
 .../profilers/categorical_column_profile.py         | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/dataprofiler/profilers/categorical_column_profile.py b/dataprofiler/profilers/categorical_column_profile.py
index 73b1d01..d1b0cb8 100644
--- a/dataprofiler/profilers/categorical_column_profile.py
+++ b/dataprofiler/profilers/categorical_column_profile.py
@@ -86,6 +86,19 @@ class CategoricalColumn(BaseColumnProfiler["CategoricalColumn"]):
                     self.cms_num_hashes, self.cms_num_buckets
                 )
 
+    def __getstate__(self) -> dict:
+        """Return the state to pickle, with the sketch as bytes."""
+        state = self.__dict__.copy()
+        if self.cms is not None:
+            state["cms"] = self.cms.serialize()
+        return state
+
+    def __setstate__(self, state: dict) -> None:
+        """Restore the pickled state, with the sketch from bytes."""
+        self.__dict__.update(state)
+        if self.cms is not None:
+            self.cms = datasketches.count_min_sketch.deserialize(self.cms)
+
     def __add__(self, other: CategoricalColumn) -> CategoricalColumn:
         """
         Merge the properties of two CategoricalColumn profiles.
-- 
2.43.0


From c2f584f9145ea5a3f37ef16f36567b6682115538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:22 +0000
Subject: [PATCH 19/53] fix: saved profiles keep correlation and null
 replication metrics

---
 dataprofiler/profilers/profile_builder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index f16a9a4..1f8b6a0 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -3069,6 +3069,8 @@ class StructuredProfiler(BaseProfiler):
                 "_min_true_samples": self._min_true_samples,
                 "options": self.options,
                 "chi2_matrix": self.chi2_matrix,
+                "correlation_matrix": self.correlation_matrix,
+                "_null_replication_metrics": self._null_replication_metrics,
                 "_profile": self.profile,
                 "_col_name_to_idx": self._col_name_to_idx,
                 "times": self.times,
-- 
2.43.0


From 77124e4a3bc1b4f722d7efef9fc16f579140c23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:22 +0000
Subject: [PATCH 20/53] fix: json round trip keeps the type of column names
 that are digits

---
 dataprofiler/profilers/profile_builder.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 1f8b6a0..14fa1e0 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2129,19 +2129,26 @@ class StructuredProfiler(BaseProfiler):
             data["chi2_matrix"] = np.array(data["chi2_matrix"])
         if data["correlation_matrix"] is not None:
             data["correlation_matrix"] = np.array(data["correlation_matrix"])
-        try:
-            data["_col_name_to_idx"] = defaultdict(
-                list, {int(k): v for k, v in data["_col_name_to_idx"].items()}
-            )
-        except Exception:
-            data["_col_name_to_idx"] = defaultdict(list, data["_col_name_to_idx"])
-
         data["hashed_row_object"] = {
             int(k): v for k, v in data["hashed_row_object"].items()
         }
 
         structured_profiler = super().load_from_dict(data, config)
 
+        # json turns integer column names into strings
+        int_names = {
+            str(col.name)
+            for col in structured_profiler._profile
+            if isinstance(col.name, int)
+        }
+        structured_profiler._col_name_to_idx = defaultdict(
+            list,
+            {
+                int(name) if name in int_names else name: idx
+                for name, idx in structured_profiler._col_name_to_idx.items()
+            },
+        )
+
         return structured_profiler
 
     def _get_unique_row_ratio(self) -> float | None:
-- 
2.43.0


From 4ac5a6faaf656ba5200b4abd6adbcd9880f4bd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:48 +0000
Subject: [PATCH 21/53] fix: correlation of a batch without values no longer
 fails

---
 dataprofiler/profilers/profile_builder.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 14fa1e0..343d5ed 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2377,8 +2377,13 @@ class StructuredProfiler(BaseProfiler):
         :param clean_samples: the input cleaned dataset
         :type clean_samples: dict()
         """
+        if not any(len(clean_sample) for clean_sample in clean_samples.values()):
+            # the batch has no values, there is nothing to update
+            return
+
         batch_properties = self._get_correlation_dependent_properties(clean_samples)
-        batch_corr = self._get_correlation(clean_samples, batch_properties)
+        # only the columns to correlate are kept, the caller still needs the others
+        batch_corr = self._get_correlation(dict(clean_samples), batch_properties)
 
         self.correlation_matrix = self._merge_correlation_helper(
             self.correlation_matrix,
@@ -2491,7 +2496,7 @@ class StructuredProfiler(BaseProfiler):
                     )
                     dependent_properties["count"][id] = n
                 # Finding the properties of the batch data if given
-                elif id in batch.keys():
+                elif id in batch.keys() and len(batch[id]):
                     history = data_type_profiler._batch_history[-1]
                     n = history["match_count"]
                     # Since we impute values, we want the total rows (including nulls)
-- 
2.43.0


From 665b664d1c5d0423427a85a84ed7adb6dca78a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:48 +0000
Subject: [PATCH 22/53] fix: correlation can be merged with non-numeric or
 reordered columns

---
 dataprofiler/profilers/profile_builder.py | 47 +++++++++--------------
 1 file changed, 19 insertions(+), 28 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 343d5ed..9f1af34 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2416,6 +2416,13 @@ class StructuredProfiler(BaseProfiler):
         if corr_mat1 is None or corr_mat2 is None:
             return None
 
+        # columns of the other profile, in the order of this profile
+        self_to_other_idx = self._get_and_validate_schema_mapping(
+            self._col_name_to_idx, other._col_name_to_idx
+        )
+        other_ids = [self_to_other_idx[idx] for idx in range(len(self._profile))]
+        corr_mat2 = np.asarray(corr_mat2)[np.ix_(other_ids, other_ids)]
+
         # get column indices without nan
         col_ids1 = np.where(~np.isnan(corr_mat1).all(axis=0))[0]
         col_ids2 = np.where(~np.isnan(corr_mat2).all(axis=0))[0]
@@ -2425,35 +2432,19 @@ class StructuredProfiler(BaseProfiler):
         if (col_ids1 != col_ids2).any():
             return None
 
-        mean1 = np.array(
-            [
-                self._profile[idx].profile["statistics"]["mean"]
-                for idx in range(len(self._profile))
-                if idx in col_ids1
-            ]
-        )
-        std1 = np.array(
-            [
-                self._profile[idx].profile["statistics"]["stddev"]
-                for idx in range(len(self._profile))
-                if idx in col_ids1
-            ]
-        )
+        def get_stats(profiles: list[StructuredColProfiler], stat: str) -> np.ndarray:
+            return np.array(
+                [
+                    profile.profile["statistics"][stat] if idx in col_ids1 else np.nan
+                    for idx, profile in enumerate(profiles)
+                ]
+            )
 
-        mean2 = np.array(
-            [
-                other._profile[idx].profile["statistics"]["mean"]
-                for idx in range(len(self._profile))
-                if idx in col_ids2
-            ]
-        )
-        std2 = np.array(
-            [
-                other._profile[idx].profile["statistics"]["stddev"]
-                for idx in range(len(self._profile))
-                if idx in col_ids2
-            ]
-        )
+        other_profiles = [other._profile[idx] for idx in other_ids]
+        mean1 = get_stats(self._profile, "mean")
+        std1 = get_stats(self._profile, "stddev")
+        mean2 = get_stats(other_profiles, "mean")
+        std2 = get_stats(other_profiles, "stddev")
         return self._merge_correlation_helper(
             corr_mat1, mean1, std1, n1, corr_mat2, mean2, std2, n2
         )
-- 
2.43.0


From 62712e8fcc1561cf8a49fca85e26f3b3f802cfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:48 +0000
Subject: [PATCH 23/53] fix: null replication metrics follow the columns across
 batches and merges

Updating failed on float sums, merging failed on datetime columns, and
reordered columns were summed up against each other.
---
 dataprofiler/profilers/profile_builder.py | 34 +++++++++++++++++------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 9f1af34..d0eb083 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2611,6 +2611,8 @@ class StructuredProfiler(BaseProfiler):
         :type clean_samples: dict
         """
         data = pd.DataFrame(clean_samples).apply(pd.to_numeric, errors="coerce")
+        # one column per profile and in that order, whatever order the batch has
+        data = data.reindex(columns=range(len(self._profile)))
 
         get_data_type = lambda profile: profile.profiles[  # NOQA: E731
             "data_type_profile"
@@ -2670,7 +2672,7 @@ class StructuredProfiler(BaseProfiler):
 
                 # np.array for element wise addition
                 old_sum_null = np.asarray(old_sum_null)
-                sum_null += old_sum_null
+                sum_null = sum_null + old_sum_null
 
             sum_not_null = np.delete(total_row_sum, col_id) - sum_null
 
@@ -2713,27 +2715,34 @@ class StructuredProfiler(BaseProfiler):
             "data_type_profile"
         ]._profiles[get_data_type(profile)]
 
+        # columns of the other profile, in the order of this profile
+        self_to_other_idx = self._get_and_validate_schema_mapping(
+            self._col_name_to_idx, other._col_name_to_idx
+        )
+        other_ids = [self_to_other_idx[idx] for idx in range(len(self._profile))]
+
         self_row_sum = np.asarray(
             [
                 get_data_type_profiler(profile).sum
-                if get_data_type(profile)
+                if get_data_type(profile) not in [None, "datetime"]
                 else np.nan
                 for profile in self._profile
             ]
         )
         other_row_sum = np.asarray(
             [
-                get_data_type_profiler(profile).sum
-                if get_data_type(profile)
+                get_data_type_profiler(other._profile[idx]).sum
+                if get_data_type(other._profile[idx]) not in [None, "datetime"]
                 else np.nan
-                for profile in other._profile
+                for idx in other_ids
             ]
         )
         total_row_sum: np.ndarray = self_row_sum + other_row_sum
         merged_properties: dict = defaultdict(dict)
         for col_id in range(len(self._profile)):
             self_profile = self._profile[col_id]
-            other_profile = other._profile[col_id]
+            other_id = other_ids[col_id]
+            other_profile = other._profile[other_id]
 
             self_null_count = getattr(self_profile, "null_count")
             other_null_count = getattr(other_profile, "null_count")
@@ -2755,10 +2764,19 @@ class StructuredProfiler(BaseProfiler):
                 else None
             )
             other_sum_null = (
-                other._null_replication_metrics[col_id]["class_sum"][1]
-                if col_id in other._null_replication_metrics
+                other._null_replication_metrics[other_id]["class_sum"][1]
+                if other_id in other._null_replication_metrics
                 else None
             )
+            if other_sum_null is not None:
+                # one entry per column except the null one: bring into our order
+                sums = dict(
+                    zip(
+                        (idx for idx in range(len(other_ids)) if idx != other_id),
+                        other_sum_null,
+                    )
+                )
+                other_sum_null = [sums[idx] for idx in other_ids if idx != other_id]
             # Initialize zeros array of size (number of columns - 1)
             sum_null = np.zeros(len(self._profile) - 1)
 
-- 
2.43.0


From aa1f87fe0163134429ffdd0be56f56a11b8f2a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:53 +0000
Subject: [PATCH 24/53] fix: correlation of a batch without numbers no longer
 fails

---
 dataprofiler/profilers/profile_builder.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index d0eb083..f1bfdaf 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2377,11 +2377,14 @@ class StructuredProfiler(BaseProfiler):
         :param clean_samples: the input cleaned dataset
         :type clean_samples: dict()
         """
-        if not any(len(clean_sample) for clean_sample in clean_samples.values()):
-            # the batch has no values, there is nothing to update
+        batch_properties = self._get_correlation_dependent_properties(clean_samples)
+        if (
+            self.correlation_matrix is not None
+            and np.isnan(batch_properties["count"]).all()
+        ):
+            # the batch has no numbers, there is nothing to update
             return
 
-        batch_properties = self._get_correlation_dependent_properties(clean_samples)
         # only the columns to correlate are kept, the caller still needs the others
         batch_corr = self._get_correlation(dict(clean_samples), batch_properties)
 
-- 
2.43.0


From 28f00f6525c37ecb30204413504c4149a9c48f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:26 +0000
Subject: [PATCH 25/53] fix: a median of 0 between two groups of values is
 reported

---
 dataprofiler/profilers/numerical_column_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index 94618f3..e082797 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -1587,7 +1587,7 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
         quantiles: np.ndarray = np.interp(
             percentiles / 100, cumsum_bin_counts, bin_edges
         )
-        if median_value:
+        if median_value is not None:
             quantiles[percentiles == 50] = median_value
         return cast(List[float], quantiles.tolist())
 
-- 
2.43.0


From e9d93287244810430b13a0594bc3700e7d23a409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:35 +0000
Subject: [PATCH 26/53] fix: correlation is unaffected by single-row batches
 and constant columns

---
 dataprofiler/profilers/profile_builder.py | 50 ++++++++++++++++++-----
 1 file changed, 40 insertions(+), 10 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index f1bfdaf..a5885c0 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2426,13 +2426,12 @@ class StructuredProfiler(BaseProfiler):
         other_ids = [self_to_other_idx[idx] for idx in range(len(self._profile))]
         corr_mat2 = np.asarray(corr_mat2)[np.ix_(other_ids, other_ids)]
 
-        # get column indices without nan
-        col_ids1 = np.where(~np.isnan(corr_mat1).all(axis=0))[0]
-        col_ids2 = np.where(~np.isnan(corr_mat2).all(axis=0))[0]
+        # get column indices with numbers (a constant column has nan correlations)
+        other_profiles = [other._profile[idx] for idx in other_ids]
+        col_ids1 = self._get_correlation_column_ids(self._profile)
+        col_ids2 = self._get_correlation_column_ids(other_profiles)
 
-        if len(col_ids1) != len(col_ids2) or len(col_ids1) <= 1:
-            return None
-        if (col_ids1 != col_ids2).any():
+        if len(col_ids1) <= 1 or col_ids1 != col_ids2:
             return None
 
         def get_stats(profiles: list[StructuredColProfiler], stat: str) -> np.ndarray:
@@ -2443,7 +2442,6 @@ class StructuredProfiler(BaseProfiler):
                 ]
             )
 
-        other_profiles = [other._profile[idx] for idx in other_ids]
         mean1 = get_stats(self._profile, "mean")
         std1 = get_stats(self._profile, "stddev")
         mean2 = get_stats(other_profiles, "mean")
@@ -2452,6 +2450,33 @@ class StructuredProfiler(BaseProfiler):
             corr_mat1, mean1, std1, n1, corr_mat2, mean2, std2, n2
         )
 
+    def _get_correlation_column_ids(
+        self, profiles: list[StructuredColProfiler]
+    ) -> list[int]:
+        """
+        Get the indices of the columns which are correlated.
+
+        :param profiles: column profiles in the order of this profile
+        :type profiles: list(StructuredColProfiler)
+        :return: indices of the selected numeric columns
+        :rtype: list(int)
+        """
+        columns = self.options.correlation.columns
+        column_ids = list(range(len(profiles)))
+        if columns is not None:
+            column_ids = [
+                idx for col_name in columns for idx in self._col_name_to_idx[col_name]
+            ]
+        return [
+            idx
+            for idx in sorted(column_ids)
+            if cast(
+                ColumnPrimitiveTypeProfileCompiler,
+                profiles[idx].profiles["data_type_profile"],
+            ).selected_data_type
+            in ["int", "float"]
+        ]
+
     def _get_correlation_dependent_properties(self, batch: dict = None) -> dict:
         """
         Obtain mean/stddev for calculating correlation.
@@ -2470,7 +2495,7 @@ class StructuredProfiler(BaseProfiler):
             "std": np.full(len(self._profile), np.nan),
             "count": np.full(len(self._profile), np.nan),
         }
-        for id in range(len(self._profile)):
+        for id in self._get_correlation_column_ids(self._profile):
             compiler = self._profile[id]
             data_type_compiler = compiler.profiles["data_type_profile"]
             data_type = cast(
@@ -2539,13 +2564,18 @@ class StructuredProfiler(BaseProfiler):
         elif len(mean2) == 0:
             return corr_mat1
 
+        # one row has no deviation
+        std1 = std1 if n1 > 1 else np.zeros(len(std1))
+        std2 = std2 if n2 > 1 else np.zeros(len(std2))
+
         std_mat1 = np.outer(std1, std1)
         std_mat2 = np.outer(std2, std2)
         mean_diff_vector = mean1 - mean2
         mean_diff_mat = np.outer(mean_diff_vector, mean_diff_vector)
 
-        cov1 = corr_mat1 * std_mat1
-        cov2 = corr_mat2 * std_mat2
+        # where there is no deviation there is no covariance (nan correlation)
+        cov1 = np.where(std_mat1 == 0, 0, corr_mat1 * std_mat1)
+        cov2 = np.where(std_mat2 == 0, 0, corr_mat2 * std_mat2)
 
         n = n1 + n2
 
-- 
2.43.0


From c67132b9fd84370d1cae6d71bd419b7999f48180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:27 +0000
Subject: [PATCH 27/53] fix: merged null replication sums cover columns without
 values in one profile

---
 dataprofiler/profilers/profile_builder.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index a5885c0..87b63b8 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2770,7 +2770,13 @@ class StructuredProfiler(BaseProfiler):
                 for idx in other_ids
             ]
         )
-        total_row_sum: np.ndarray = self_row_sum + other_row_sum
+        # a column without values in one of the profiles adds nothing to its sum
+        total_row_sum: np.ndarray = np.asarray(
+            [
+                np.nan if np.isnan(sums).all() else np.nansum(sums)
+                for sums in zip(self_row_sum, other_row_sum)
+            ]
+        )
         merged_properties: dict = defaultdict(dict)
         for col_id in range(len(self._profile)):
             self_profile = self._profile[col_id]
-- 
2.43.0


From eaa2a5779368fdfd2f5f07273a5e597d8b1385ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:05 +0000
Subject: [PATCH 28/53] fix: merged text profile leaves out the stop words of
 either profile

---
 dataprofiler/profilers/unstructured_text_profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/unstructured_text_profile.py b/dataprofiler/profilers/unstructured_text_profile.py
index 96b7d06..98f7377 100644
--- a/dataprofiler/profilers/unstructured_text_profile.py
+++ b/dataprofiler/profilers/unstructured_text_profile.py
@@ -503,7 +503,7 @@ class TextProfiler:
 
         # remove stop words
         merged_profile._stop_words = self._stop_words.union(other._stop_words)
-        if len(merged_profile._stop_words) != len(self._stop_words):
+        if self._stop_words != other._stop_words:
             for w in list(merged_profile.word_count.keys()):
                 if w.lower() in merged_profile._stop_words:
                     merged_profile.word_count.pop(w)
-- 
2.43.0


From 06512ce653f0cfe905df730d7ca7d83ef1a20a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:29 +0000
Subject: [PATCH 29/53] fix: comparing text profiles adds up words which only
 differ in case

---
 .../profilers/unstructured_text_profile.py    | 35 ++++++++++++++-----
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/dataprofiler/profilers/unstructured_text_profile.py b/dataprofiler/profilers/unstructured_text_profile.py
index 98f7377..9912415 100644
--- a/dataprofiler/profilers/unstructured_text_profile.py
+++ b/dataprofiler/profilers/unstructured_text_profile.py
@@ -578,6 +578,21 @@ class TextProfiler:
 
         return merged_profile
 
+    @staticmethod
+    def _fold_case(word_count: Counter) -> Counter:
+        """
+        Add up the counts of words which only differ in case.
+
+        :param word_count: word count of a case sensitive profile
+        :type word_count: Counter
+        :return: word count with lower case words
+        :rtype: Counter
+        """
+        folded: Counter = Counter()
+        for word, count in word_count.items():
+            folded[word.lower()] += count
+        return folded
+
     def diff(self, other_profile: TextProfiler, options: dict = None) -> dict:
         """
         Find the differences for two unstructured text profiles.
@@ -596,18 +611,20 @@ class TextProfiler:
                 "and '{}'".format(cls.__name__, other_profile.__class__.__name__)
             )
 
-        self_words = list(self.word_count.keys())
-        self_word_count = dict(self.word_count.most_common(self._top_k_words))
-
-        other_words = list(other_profile.word_count.keys())
-        other_word_count = dict(other_profile.word_count.most_common(self._top_k_words))
+        self_word_counter = self.word_count
+        other_word_counter = other_profile.word_count
 
+        # words are compared in lower case if either profile ignores the case
         if self._is_case_sensitive and not other_profile._is_case_sensitive:
-            self_words = [each_string.lower() for each_string in self_words]
-            self_word_count = {k.lower(): v for k, v in self_word_count.items()}
+            self_word_counter = self._fold_case(self_word_counter)
         if not self._is_case_sensitive and other_profile._is_case_sensitive:
-            other_words = [each_string.lower() for each_string in other_words]
-            other_word_count = {k.lower(): v for k, v in other_word_count.items()}
+            other_word_counter = self._fold_case(other_word_counter)
+
+        self_words = list(self_word_counter.keys())
+        self_word_count = dict(self_word_counter.most_common(self._top_k_words))
+
+        other_words = list(other_word_counter.keys())
+        other_word_count = dict(other_word_counter.most_common(self._top_k_words))
 
         diff: dict = {}
         diff["vocab"] = profiler_utils.find_diff_of_lists_and_sets(
-- 
2.43.0


From 1a0f5fe8acaf3ee6b0d73602cde7ba0acca41900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:58 +0000
Subject: [PATCH 30/53] fix: comparing null positions reports the positions of
 both profiles

---
 dataprofiler/profilers/profiler_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/profiler_utils.py b/dataprofiler/profilers/profiler_utils.py
index e38e1b0..7588d04 100644
--- a/dataprofiler/profilers/profiler_utils.py
+++ b/dataprofiler/profilers/profiler_utils.py
@@ -638,7 +638,7 @@ def find_diff_of_dicts_with_diff_keys(
     for key, value1 in dict1.items():
         if key in dict2:
             value2 = dict2[key]
-            if isinstance(value1, list):
+            if isinstance(value1, (list, set)):
                 diff_shared[key] = find_diff_of_lists_and_sets(value1, value2)
             elif isinstance(value1, datetime.datetime):
                 diff_shared[key] = find_diff_of_dates(value1, value2)
-- 
2.43.0


From e13fc0ef5efd4cbd4fc521b53e0bbd7870c9fbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:41 +0000
Subject: [PATCH 31/53] fix: the population stability index compares both
 histograms on the same bins

---
 dataprofiler/profilers/numerical_column_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index e082797..7748cd6 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -725,7 +725,7 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
             # re-calculate `other_profile` histogram
             histogram_edges_not_equal = False
             all_array_values_equal = np.array_equal(
-                other_histogram["bin_edges"], self_histogram["bin_edges"]
+                other_histogram["bin_edges"], new_self_histogram["bin_edges"]
             )
             if not all_array_values_equal:
                 histogram_edges_not_equal = True
-- 
2.43.0


From aa2cbeed449cc630a5c1efc30de0af4501a55af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:55 +0000
Subject: [PATCH 32/53] fix: null replication metrics survive saving as json

---
 dataprofiler/profilers/profile_builder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 87b63b8..a0c1653 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2132,6 +2132,10 @@ class StructuredProfiler(BaseProfiler):
         data["hashed_row_object"] = {
             int(k): v for k, v in data["hashed_row_object"].items()
         }
+        if data.get("_null_replication_metrics") is not None:
+            data["_null_replication_metrics"] = {
+                int(k): v for k, v in data["_null_replication_metrics"].items()
+            }
 
         structured_profiler = super().load_from_dict(data, config)
 
-- 
2.43.0


From 5fdd6d27164be7accd9a7fd4233ad61436fb1905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:08 +0000
Subject: [PATCH 33/53] fix: options with null values can be loaded from json

---
 dataprofiler/profilers/profiler_options.py | 31 ++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/dataprofiler/profilers/profiler_options.py b/dataprofiler/profilers/profiler_options.py
index 038acf8..f5ca407 100644
--- a/dataprofiler/profilers/profiler_options.py
+++ b/dataprofiler/profilers/profiler_options.py
@@ -1488,6 +1488,37 @@ class StructuredOptions(BaseOption["StructuredOptions"]):
         self.column_null_values = column_null_values
         self.sampling_ratio = sampling_ratio
 
+    @classmethod
+    def load_from_dict(cls, data, config: dict | None = None) -> StructuredOptions:
+        """
+        Parse attribute from json dictionary into self.
+
+        :param data: dictionary with attributes and values.
+        :type data: dict[string, Any]
+        :param config: config to override loading options params from dictionary
+        :type config: Dict | None
+
+        :return: Options with attributes populated.
+        :rtype: StructuredOptions
+        """
+        option = cast(StructuredOptions, super().load_from_dict(data, config))
+
+        # json turns regex flags into integers and integer keys into strings
+        if option.null_values is not None:
+            option.null_values = {
+                value: re.RegexFlag(flags) if flags else flags
+                for value, flags in option.null_values.items()
+            }
+        if option.column_null_values is not None:
+            option.column_null_values = {
+                int(index): {
+                    value: re.RegexFlag(flags) if flags else flags
+                    for value, flags in values.items()
+                }
+                for index, values in option.column_null_values.items()
+            }
+        return option
+
     @property
     def enabled_profiles(self) -> list[str]:
         """Return a list of the enabled profilers for columns."""
-- 
2.43.0


From 60d4086c7350713747ca0a6c52e26e16226991ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:04 +0000
Subject: [PATCH 34/53] fix: correlation update ignores batches without any
 rows left

---
 dataprofiler/profilers/profile_builder.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index a0c1653..d0a1aca 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2382,9 +2382,9 @@ class StructuredProfiler(BaseProfiler):
         :type clean_samples: dict()
         """
         batch_properties = self._get_correlation_dependent_properties(clean_samples)
-        if (
-            self.correlation_matrix is not None
-            and np.isnan(batch_properties["count"]).all()
+        has_rows = any(len(samples) for samples in clean_samples.values())
+        if np.isnan(batch_properties["count"]).all() and (
+            self.correlation_matrix is not None or not has_rows
         ):
             # the batch has no numbers, there is nothing to update
             return
-- 
2.43.0


From 8734740bcbb587e7cb8791a97ac7a580b9f6180f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:31 +0000
Subject: [PATCH 35/53] fix: a row of empty cells in a tab separated file can
 be read

---
 dataprofiler/data_readers/csv_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/data_readers/csv_data.py b/dataprofiler/data_readers/csv_data.py
index 7e13d40..37179c5 100644
--- a/dataprofiler/data_readers/csv_data.py
+++ b/dataprofiler/data_readers/csv_data.py
@@ -595,7 +595,7 @@ class CSVData(SpreadSheetDataMixin, BaseData):
                     if len(line) > 0:
                         if (
                             line.count(self._delimiter) == 1
-                            and line.strip()[-1] == self._delimiter
+                            and line.strip().endswith(self._delimiter)
                         ):
                             count_delimiter_last += 1
                         num_lines_read += 1
-- 
2.43.0


From 025bbe9b1be93f8d75142fb8d9c3bf359bfff77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:31 +0000
Subject: [PATCH 36/53] fix: the quote character of a csv file is used to read
 it

---
 dataprofiler/data_readers/csv_data.py   | 2 ++
 dataprofiler/data_readers/data_utils.py | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/dataprofiler/data_readers/csv_data.py b/dataprofiler/data_readers/csv_data.py
index 37179c5..d01f755 100644
--- a/dataprofiler/data_readers/csv_data.py
+++ b/dataprofiler/data_readers/csv_data.py
@@ -562,6 +562,7 @@ class CSVData(SpreadSheetDataMixin, BaseData):
             self.sample_nrows,
             self.selected_columns,
             read_in_string=True,
+            quotechar=self.quotechar,
         )
 
     def _load_data_from_file(self, input_file_path: str) -> pd.DataFrame:
@@ -610,6 +611,7 @@ class CSVData(SpreadSheetDataMixin, BaseData):
             self.selected_columns,
             read_in_string=True,
             encoding=self.file_encoding,
+            quotechar=self.quotechar,
         )
 
     def _get_data_as_records(self, data: pd.DataFrame) -> List[str]:
diff --git a/dataprofiler/data_readers/data_utils.py b/dataprofiler/data_readers/data_utils.py
index 611d25d..ff63a8d 100644
--- a/dataprofiler/data_readers/data_utils.py
+++ b/dataprofiler/data_readers/data_utils.py
@@ -375,6 +375,7 @@ def read_csv_df(
     selected_columns: List[str] = [],
     read_in_string: bool = False,
     encoding: Optional[str] = "utf-8",
+    quotechar: Optional[str] = None,
 ) -> pd.DataFrame:
     """
     Read a CSV file in chunks and return dataframe in form of iterator.
@@ -390,6 +391,8 @@ def read_csv_df(
     :param read_in_string: if True, all the values in dataframe will be
         converted to string
     :type read_in_string: bool
+    :param quotechar: character used to quote csv values.
+    :type quotechar: str
     :return: Iterator
     :rtype: pd.DataFrame
     """
@@ -402,6 +405,9 @@ def read_csv_df(
         "encoding": encoding,
     }
 
+    if quotechar:
+        args["quotechar"] = quotechar
+
     # If a header can be identified, don't skip blanks
     if header is not None:
         args.update({"skip_blank_lines": False})
-- 
2.43.0


From 64606c868cc31ab08c9f6111b92b1a9176eeb5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:31 +0000
Subject: [PATCH 37/53] fix: json records after a blank line are read

---
 dataprofiler/data_readers/data_utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/data_readers/data_utils.py b/dataprofiler/data_readers/data_utils.py
index ff63a8d..fc63fd3 100644
--- a/dataprofiler/data_readers/data_utils.py
+++ b/dataprofiler/data_readers/data_utils.py
@@ -201,8 +201,10 @@ def read_json_df(
         except StopIteration:
             raw_line = None
 
-        if not raw_line:
+        if raw_line is None:
             break
+        if not raw_line.strip():
+            continue
         try:
             obj = unicode_to_str(
                 json.loads(
@@ -257,8 +259,10 @@ def read_json(
         except StopIteration:
             raw_line = None
 
-        if not raw_line:
+        if raw_line is None:
             break
+        if not raw_line.strip():
+            continue
         try:
             obj = unicode_to_str(
                 json.loads(
-- 
2.43.0


From 0c8270ccaea35f9dba0ba5628472286e608d366e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:31 +0000
Subject: [PATCH 38/53] fix: nested records of json lines are flattened

---
 dataprofiler/data_readers/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/data_readers/data_utils.py b/dataprofiler/data_readers/data_utils.py
index fc63fd3..1edca5a 100644
--- a/dataprofiler/data_readers/data_utils.py
+++ b/dataprofiler/data_readers/data_utils.py
@@ -149,7 +149,7 @@ def json_to_dataframe(
             "Only JSON which represents structured data is supported for this "
             "data type (i.e. list-dicts)."
         )
-    elif first_item_type == dict:
+    elif issubclass(first_item_type, dict):
         df = pd.json_normalize(json_lines)
     else:
         df = pd.DataFrame(json_lines)
-- 
2.43.0


From fe93993401d923a15529ac7237dd25cf8e98976d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:31 +0000
Subject: [PATCH 39/53] fix: rows of a parquet file with several row groups are
 numbered through

---
 dataprofiler/data_readers/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/data_readers/data_utils.py b/dataprofiler/data_readers/data_utils.py
index 1edca5a..13999d9 100644
--- a/dataprofiler/data_readers/data_utils.py
+++ b/dataprofiler/data_readers/data_utils.py
@@ -561,7 +561,7 @@ def read_parquet_df(
             if selected_columns:
                 data_row_df = data_row_df[selected_columns]
 
-            data = pd.concat([data, data_row_df])
+            data = pd.concat([data, data_row_df], ignore_index=True)
 
         original_df_dtypes = data.dtypes
         if read_in_string:
-- 
2.43.0


From 6ea520b2ef12eaf5cdb708e711f206feeb49f278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:31 +0000
Subject: [PATCH 40/53] fix: reloading a csv reader uses the given options, not
 those of the previous file

---
 dataprofiler/data_readers/csv_data.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/dataprofiler/data_readers/csv_data.py b/dataprofiler/data_readers/csv_data.py
index d01f755..472195b 100644
--- a/dataprofiler/data_readers/csv_data.py
+++ b/dataprofiler/data_readers/csv_data.py
@@ -763,10 +763,6 @@ class CSVData(SpreadSheetDataMixin, BaseData):
         :type options: dict
         :return: None
         """
-        if not options:
-            options = dict()
-        options.update(
-            header=self.header, delimiter=self.delimiter, quotechar=self.quotechar
-        )
+        options = dict(options) if options else dict()
         super().reload(input_file_path, data, options)
         CSVData.__init__(self, self.input_file_path, data, options)
-- 
2.43.0


From 25f91f4d9631f8123b182c2db7ec71e687b9b4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:35 +0000
Subject: [PATCH 41/53] fix: digits of an exponent written with a capital E do
 not count as precision

---
 dataprofiler/profilers/float_column_profile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/float_column_profile.py b/dataprofiler/profilers/float_column_profile.py
index e9a0b51..f9d1d6a 100644
--- a/dataprofiler/profilers/float_column_profile.py
+++ b/dataprofiler/profilers/float_column_profile.py
@@ -293,8 +293,8 @@ class FloatColumn(
             return None
 
         # Lead zeros: ^[+-.0\s]+ End zeros: \.?0+(\s|$)
-        # Scientific Notation: (?<=[e])(.*) Any non-digits: \D
-        r = re.compile(r"^[+-.0\s]+|\.?0+(\s|$)|(?<=[e])(.*)|\D")
+        # Scientific Notation: (?<=[eE])(.*) Any non-digits: \D
+        r = re.compile(r"^[+-.0\s]+|\.?0+(\s|$)|(?<=[eE])(.*)|\D")
 
         # DEFAULT: Sample the dataset. If small use full dataset,
         # OR 20k samples or 5% of the dataset which ever is larger.
-- 
2.43.0


From 3365588f83c85cd89e1516426e0ab76bccdf489c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:35 +0000
Subject: [PATCH 42/53] fix: dates in May are recognised in formats that have
 no spelled-out counterpart

---
 dataprofiler/profilers/datetime_column_profile.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/datetime_column_profile.py b/dataprofiler/profilers/datetime_column_profile.py
index af99283..7de8689 100644
--- a/dataprofiler/profilers/datetime_column_profile.py
+++ b/dataprofiler/profilers/datetime_column_profile.py
@@ -277,7 +277,12 @@ class DateTimeColumn(BaseColumnPrimitiveTypeProfiler["DateTimeColumn"]):
 
             df_dates = valid_dates[~valid_dates.isnull()]
 
-            if "%b" in date_format and not df_dates.empty:
+            # formats with a counterpart which spells out the month
+            has_full_month = (
+                "%b" in date_format
+                and date_format.replace("%b", "%B") in cls._date_formats
+            )
+            if has_full_month and not df_dates.empty:
                 may_month = 5  # May can be %b or %B we want to force, so check
                 all_may = df_dates.apply(lambda x: x.month == may_month).all()
                 if all_may:
-- 
2.43.0


From 5f45c1022f04725780274bc39e57addc647dad00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:35 +0000
Subject: [PATCH 43/53] fix: rows are compared by the text of their cells,
 whatever types their column mixes

---
 dataprofiler/profilers/profile_builder.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index d0a1aca..4c8a3fe 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2240,19 +2240,18 @@ class StructuredProfiler(BaseProfiler):
             rows = data.iloc[:, col_order]
             rows.columns = range(rows.shape[1])
             if isinstance(self.hashed_row_object, dict):
-                try:
-                    self.hashed_row_object.update(
-                        dict.fromkeys(
-                            pd.util.hash_pandas_object(rows, index=False), True
-                        )
-                    )
-                except TypeError:
-                    self.hashed_row_object.update(
-                        dict.fromkeys(
-                            pd.util.hash_pandas_object(rows.astype(str), index=False),
-                            True,
-                        )
+                # Hash the text of the cells, as the hash of other objects
+                # depends on the types of the remaining cells of their column
+                rows = rows.apply(
+                    lambda col: col.astype(object)
+                    .map(str, na_action="ignore")
+                    .astype(object)
+                )
+                self.hashed_row_object.update(
+                    dict.fromkeys(
+                        pd.util.hash_pandas_object(rows, index=False), True
                     )
+                )
             elif isinstance(self.hashed_row_object, HyperLogLog):
                 batch_size = 2048
 
-- 
2.43.0


From 8ac8b03c0abaf15cf8f5331fb6a1c3bbdbe930e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:41 +0000
Subject: [PATCH 44/53] fix: a batch without values in the numeric columns does
 not break the correlation update

---
 dataprofiler/profilers/profile_builder.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 4c8a3fe..d06cdd5 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2365,8 +2365,9 @@ class StructuredProfiler(BaseProfiler):
         corr_mat = np.full((n_cols, n_cols), np.nan)
 
         # then, fill in the correlations for valid columns
-        rows = [[id] for id in clean_column_ids]
-        corr_mat[rows, clean_column_ids] = np.corrcoef(data, rowvar=False)
+        if len(data):
+            rows = [[id] for id in clean_column_ids]
+            corr_mat[rows, clean_column_ids] = np.corrcoef(data, rowvar=False)
 
         return corr_mat
 
-- 
2.43.0


From df278e6973b7180775dc37b3af3062e6e924ac9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:42 +0000
Subject: [PATCH 45/53] fix: a profile with the variance switched off can be
 updated after a single value

---
 dataprofiler/profilers/profile_builder.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index d06cdd5..14e76f8 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2927,7 +2927,11 @@ class StructuredProfiler(BaseProfiler):
 
         # Record the previous mean/std values of columns that need to
         # have correlation updated.
-        corr_prev_dependent_properties = self._get_correlation_dependent_properties()
+        corr_prev_dependent_properties = {}
+        if self.options.correlation.is_enabled:
+            corr_prev_dependent_properties = (
+                self._get_correlation_dependent_properties()
+            )
 
         # Create StructuredColProfilers upon initialization
         # Record correlation between columns in data and index in _profile
-- 
2.43.0


From adaf501e325b7b37a347f0fb210960a38d00ef87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:13 +0000
Subject: [PATCH 46/53] fix: remove_disabled_flag leaves out the disabled
 statistics and no others

---
 .../profilers/float_column_profile.py         |  9 ++--
 dataprofiler/profilers/int_column_profile.py  |  5 +-
 .../profilers/numerical_column_stats.py       | 47 +++++++++++++------
 dataprofiler/profilers/text_column_profile.py |  9 ++--
 .../profilers/unstructured_text_profile.py    | 15 +++---
 5 files changed, 48 insertions(+), 37 deletions(-)

diff --git a/dataprofiler/profilers/float_column_profile.py b/dataprofiler/profilers/float_column_profile.py
index f9d1d6a..7248377 100644
--- a/dataprofiler/profilers/float_column_profile.py
+++ b/dataprofiler/profilers/float_column_profile.py
@@ -150,12 +150,9 @@ class FloatColumn(
         profile = self.profile
 
         if remove_disabled_flag:
-            profile_keys = list(profile.keys())
-            for profile_key in profile_keys:
-                if profile_key == "precision":
-                    if "precision" in calcs_dict_keys:
-                        continue
-                profile.pop(profile_key)
+            self._remove_disabled_stats(profile)
+            if "precision" not in calcs_dict_keys:
+                profile.pop("precision")
 
         return profile
 
diff --git a/dataprofiler/profilers/int_column_profile.py b/dataprofiler/profilers/int_column_profile.py
index 014465c..58809ab 100644
--- a/dataprofiler/profilers/int_column_profile.py
+++ b/dataprofiler/profilers/int_column_profile.py
@@ -70,7 +70,10 @@ class IntColumn(
             options should be excluded in the report.
         :type remove_disabled_flag: boolean
         """
-        return self.profile
+        profile = self.profile
+        if remove_disabled_flag:
+            self._remove_disabled_stats(profile)
+        return profile
 
     @classmethod
     def load_from_dict(cls, data, config: dict | None = None):
diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index 7748cd6..32b7ee0 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -407,25 +407,42 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
         :return: Profile object pop'd based on values missing from __calculations
         :rtype: Profile
         """
-        calcs_dict_keys = self._NumericStatsMixin__calculations.keys()
         profile = self.profile()
-
         if remove_disabled_flag:
-            profile_keys = list(profile.keys())
-            for profile_key in profile_keys:
-                if profile_key in ["mode", "quantiles", "histogram"]:
-                    if "histogram_and_quantiles" in calcs_dict_keys:
-                        continue
-                elif profile_key == "stddev" and "variance" in calcs_dict_keys:
-                    continue
-                elif profile_key in calcs_dict_keys:
-                    continue
-                elif profile_key == "times":
-                    continue
-                profile.pop(profile_key)
-
+            self._remove_disabled_stats(profile)
         return profile
 
+    def _remove_disabled_stats(self, profile: dict) -> None:
+        """
+        Remove the numerical statistics which are disabled from the profile.
+
+        :param profile: profile of the column
+        :type profile: dict
+        :return: None
+        """
+        calcs = self._NumericStatsMixin__calculations  # type: ignore[attr-defined]
+        has_hist = "histogram_and_quantiles" in calcs
+        is_enabled = {
+            "min": "min" in calcs,
+            "max": "max" in calcs,
+            "mode": has_hist and self._mode_is_enabled,
+            "median": has_hist and self._median_is_enabled,
+            "sum": "sum" in calcs,
+            "mean": "sum" in calcs,
+            "variance": "variance" in calcs,
+            "stddev": "variance" in calcs,
+            "skewness": "skewness" in calcs,
+            "kurtosis": "kurtosis" in calcs,
+            "histogram": has_hist,
+            "quantiles": has_hist,
+            "median_abs_deviation": has_hist and self._median_abs_dev_is_enabled,
+            "num_zeros": "num_zeros" in calcs,
+            "num_negatives": "num_negatives" in calcs,
+        }
+        for stat, enabled in is_enabled.items():
+            if not enabled:
+                profile.pop(stat, None)
+
     def _reformat_numeric_stats_types_on_serialized_profiles(self):
         """Assistance function in the deserialization of profiler objects.
 
diff --git a/dataprofiler/profilers/text_column_profile.py b/dataprofiler/profilers/text_column_profile.py
index 5969a41..a1cd895 100644
--- a/dataprofiler/profilers/text_column_profile.py
+++ b/dataprofiler/profilers/text_column_profile.py
@@ -76,12 +76,9 @@ class TextColumn(
         profile = self.profile
 
         if remove_disabled_flag:
-            profile_keys = list(profile.keys())
-            for profile_key in profile_keys:
-                if profile_key == "vocab":
-                    if "vocab" in calcs_dict_keys:
-                        continue
-                profile.pop(profile_key)
+            self._remove_disabled_stats(profile)
+            if "vocab" not in calcs_dict_keys:
+                profile.pop("vocab")
 
         return profile
 
diff --git a/dataprofiler/profilers/unstructured_text_profile.py b/dataprofiler/profilers/unstructured_text_profile.py
index 9912415..aa05435 100644
--- a/dataprofiler/profilers/unstructured_text_profile.py
+++ b/dataprofiler/profilers/unstructured_text_profile.py
@@ -652,15 +652,12 @@ class TextProfiler:
         profile = self.profile
 
         if remove_disabled_flag:
-            profile_keys = list(profile.keys())
-            for profile_key in profile_keys:
-                if profile_key == "vocab":
-                    if "vocab" in calcs_dict_keys:
-                        continue
-                if profile_key == "words":
-                    if "words" in calcs_dict_keys:
-                        continue
-                profile.pop(profile_key)
+            if "vocab" not in calcs_dict_keys:
+                profile.pop("vocab")
+                profile.pop("vocab_count")
+            if "words" not in calcs_dict_keys:
+                profile.pop("words")
+                profile.pop("word_count")
 
         return profile
 
-- 
2.43.0


From 2f09f7ece1e018523a936c5de9a98483f2e34dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:14 +0000
Subject: [PATCH 47/53] fix: a compact report does not extend the omit_keys of
 its caller

---
 .../profilers/helpers/report_helpers.py         | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/dataprofiler/profilers/helpers/report_helpers.py b/dataprofiler/profilers/helpers/report_helpers.py
index 0588252..a6c24a5 100644
--- a/dataprofiler/profilers/helpers/report_helpers.py
+++ b/dataprofiler/profilers/helpers/report_helpers.py
@@ -124,15 +124,14 @@ def _prepare_report(
     max_array_len = 5
 
     if output_format == "compact":
-        omit_keys.extend(
-            [
-                "data_stats.*.statistics.times",
-                "data_stats.*.statistics.avg_predictions",
-                "data_stats.*.statistics.data_label_representation",
-                "data_stats.*.statistics.null_types_index",
-                "data_stats.*.statistics.histogram",
-            ]
-        )
+        # the list given by the user is not to be changed
+        omit_keys = omit_keys + [
+            "data_stats.*.statistics.times",
+            "data_stats.*.statistics.avg_predictions",
+            "data_stats.*.statistics.data_label_representation",
+            "data_stats.*.statistics.null_types_index",
+            "data_stats.*.statistics.histogram",
+        ]
         output_format = "pretty"
 
     for key in report:
-- 
2.43.0


From 16d4ef11fdf0a1df58ae9f7eb02b2a6132819f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:15 +0000
Subject: [PATCH 48/53] fix: omit_keys *.* omits the columns of the report

---
 dataprofiler/profilers/helpers/report_helpers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataprofiler/profilers/helpers/report_helpers.py b/dataprofiler/profilers/helpers/report_helpers.py
index a6c24a5..fadc8a8 100644
--- a/dataprofiler/profilers/helpers/report_helpers.py
+++ b/dataprofiler/profilers/helpers/report_helpers.py
@@ -173,6 +173,7 @@ def _prepare_report(
                     # Omit this column
                     if omit_key in {
                         f"*.{col_name}",
+                        "*.*",
                         "data_stats.*",
                         f"data_stats.{col_name}",
                     }:
-- 
2.43.0


From 6bc74b4594723be583ee2346f951fa4826b0c278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:55 +0000
Subject: [PATCH 49/53] fix: changing the lists of a report does not change the
 profile

---
 dataprofiler/profilers/helpers/report_helpers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/helpers/report_helpers.py b/dataprofiler/profilers/helpers/report_helpers.py
index fadc8a8..29f4d3c 100644
--- a/dataprofiler/profilers/helpers/report_helpers.py
+++ b/dataprofiler/profilers/helpers/report_helpers.py
@@ -1,6 +1,7 @@
 """Contains helper functions for generating report."""
 from __future__ import annotations
 
+import copy
 import math
 
 import numpy as np
@@ -259,7 +260,10 @@ def _prepare_report(
             elif output_format == "serializable" and isinstance(value, np.ndarray):
                 fmt_report[key] = value.tolist()
             else:
-                fmt_report[key] = value
+                # the report is not to share lists with the profile
+                fmt_report[key] = (
+                    copy.deepcopy(value) if isinstance(value, list) else value
+                )
 
             if output_format in ["pretty", "serializable", "compact"] and all(
                 isinstance(v, dict) for v in value
-- 
2.43.0


From 4c3d4b815bd9959fcab54f595163e05f62553e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:01 +0000
Subject: [PATCH 50/53] fix: keep the sampling ratio of a profile saved with
 pickle

---
 dataprofiler/profilers/profile_builder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 14e76f8..2315751 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -3135,6 +3135,7 @@ class StructuredProfiler(BaseProfiler):
                 "hashed_row_object": self.hashed_row_object,
                 "_samples_per_update": self._samples_per_update,
                 "_min_true_samples": self._min_true_samples,
+                "_sampling_ratio": self._sampling_ratio,
                 "options": self.options,
                 "chi2_matrix": self.chi2_matrix,
                 "correlation_matrix": self.correlation_matrix,
-- 
2.43.0


From 2b2d262139f0cefdd5dd4fca1941715e2fdc990a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:29 +0000
Subject: [PATCH 51/53] fix: a labelled column without values can be merged

---
 dataprofiler/profilers/data_labeler_column_profile.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dataprofiler/profilers/data_labeler_column_profile.py b/dataprofiler/profilers/data_labeler_column_profile.py
index d9bfe1e..5913787 100644
--- a/dataprofiler/profilers/data_labeler_column_profile.py
+++ b/dataprofiler/profilers/data_labeler_column_profile.py
@@ -182,14 +182,14 @@ class DataLabelerColumn(BaseColumnProfiler["DataLabelerColumn"]):
         # Combine rank distribution
         if self.sample_size or other.sample_size:
             merged_profile._rank_distribution = {
-                key: self._rank_distribution.get(key, 0)
-                + other._rank_distribution.get(key, 0)
-                for key in set(self._rank_distribution) | set(other._rank_distribution)
+                key: self.rank_distribution.get(key, 0)
+                + other.rank_distribution.get(key, 0)
+                for key in set(self.rank_distribution) | set(other.rank_distribution)
             }
 
             # Combine Sum Predictions
             merged_profile._sum_predictions = (
-                self._sum_predictions + other._sum_predictions
+                self.sum_predictions + other.sum_predictions
             )
         return merged_profile
 
-- 
2.43.0


From cc18e9b93f212f9d3f8f2c7872317842e11625d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:29 +0000
Subject: [PATCH 52/53] fix: the last character of a text gets the label of its
 word

---
 dataprofiler/labelers/data_processing.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/labelers/data_processing.py b/dataprofiler/labelers/data_processing.py
index d53980a..77323e0 100644
--- a/dataprofiler/labelers/data_processing.py
+++ b/dataprofiler/labelers/data_processing.py
@@ -1101,8 +1101,10 @@ class CharPostprocessor(BaseDataPostprocessor, metaclass=AutoSubRegistrationMeta
                             dominate_label_count = label_count[label]
                             dominate_label = label
 
-                    # Set the dominate label to the entity
-                    for i in range(start_idx, idx):
+                    # Set the dominate label to the entity, including the last
+                    # character of the sample if it belongs to the word
+                    end_idx = idx if is_separator else idx + 1
+                    for i in range(start_idx, end_idx):
                         entities_in_sample[i] = dominate_label
 
                     # Set to background if not relabeled
-- 
2.43.0


From 0fae989577e42f8ccac477fd41214519b7969942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:29 +0000
Subject: [PATCH 53/53] fix: labels for training may be arrays

---
 dataprofiler/labelers/data_processing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/labelers/data_processing.py b/dataprofiler/labelers/data_processing.py
index 77323e0..4883656 100644
--- a/dataprofiler/labelers/data_processing.py
+++ b/dataprofiler/labelers/data_processing.py
@@ -862,7 +862,7 @@ class CharEncodedPreprocessor(CharPreprocessor, metaclass=AutoSubRegistrationMet
         max_length = self._parameters["max_length"]
         for char_processed_data in char_processor_gen:
             x = char_processed_data
-            if labels:
+            if labels is not None:
                 x = char_processed_data[0]
                 y = char_processed_data[1]
 
@@ -875,7 +875,7 @@ class CharEncodedPreprocessor(CharPreprocessor, metaclass=AutoSubRegistrationMet
                     for c in text[0]
                 ]
 
-            if labels:
+            if labels is not None:
                 yield processed_x, y
             else:
                 yield processed_x
-- 
2.43.0

