From e538991260478f74d1e981b01089cf8e08bbc09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:59 +0000
Subject: [PATCH 01/30] fix: a running min or max of zero is no longer
 discarded by the next batch

---
 dataprofiler/profilers/numerical_column_stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index fa0666a..96f30f7 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -1770,7 +1770,7 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
         subset_properties: dict,
     ) -> None:
         min_value = df_series.min()
-        self.min = min_value if not self.min else min(self.min, min_value)
+        self.min = min_value if self.min is None else min(self.min, min_value)
         subset_properties["min"] = min_value
 
     @BaseColumnProfiler._timeit(name="max")
@@ -1781,7 +1781,7 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
         subset_properties: dict,
     ) -> None:
         max_value = df_series.max()
-        self.max = max_value if not self.max else max(self.max, max_value)
+        self.max = max_value if self.max is None else max(self.max, max_value)
         subset_properties["max"] = max_value
 
     @BaseColumnProfiler._timeit(name="sum")
-- 
2.43.0


From 341495ed7cce7e84c51b7b1df9aa65f0d25bbde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:51 +0000
Subject: [PATCH 02/30] fix: merging with a profile that has no histogram keeps
 a copy of the other's histogram

---
 dataprofiler/profilers/numerical_column_stats.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index 96f30f7..6861b31 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -345,12 +345,16 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
         if "histogram_and_quantiles" in self.__calculations.keys():
             if other1._has_histogram and other2._has_histogram:
                 self._add_helper_merge_profile_histograms(other1, other2)
-            elif not other2._has_histogram:
-                self.histogram_methods = other1.histogram_methods
-                self.quantiles = other1.quantiles
             else:
-                self.histogram_methods = other2.histogram_methods
-                self.quantiles = other2.quantiles
+                # only one profile has a histogram: carry over a copy of it
+                other = other2 if other2._has_histogram else other1
+                self.histogram_bin_method_names = copy.copy(
+                    other.histogram_bin_method_names
+                )
+                self.user_set_histogram_bin = other.user_set_histogram_bin
+                self.histogram_methods = copy.deepcopy(other.histogram_methods)
+                self._stored_histogram = copy.deepcopy(other._stored_histogram)
+                self.quantiles = copy.deepcopy(other.quantiles)
 
         # Merge max k mode count
         self._top_k_modes = max(other1._top_k_modes, other2._top_k_modes)
-- 
2.43.0


From b0ce835b97a4f59bac3390b84b68d64235a98d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:51 +0000
Subject: [PATCH 03/30] fix: float precision variance weights each batch by its
 own sample size

---
 dataprofiler/profilers/float_column_profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/float_column_profile.py b/dataprofiler/profilers/float_column_profile.py
index bc426a4..6cfd47f 100644
--- a/dataprofiler/profilers/float_column_profile.py
+++ b/dataprofiler/profilers/float_column_profile.py
@@ -379,7 +379,6 @@ class FloatColumn(
                 self._precision["max"], subset_precision["max"]
             )
             self._precision["sum"] += subset_precision["sum"]
-            self._precision["sample_size"] += subset_precision["sample_size"]
 
             self._precision["biased_var"] = self._merge_biased_variance(
                 self._precision["sample_size"],
@@ -389,6 +388,7 @@ class FloatColumn(
                 subset_precision["biased_var"],
                 subset_precision["mean"],
             )
+            self._precision["sample_size"] += subset_precision["sample_size"]
 
             self._precision["mean"] = (
                 self._precision["sum"] / self._precision["sample_size"]
-- 
2.43.0


From a75c2f4c70177315c221be46378a1d496603968e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:51 +0000
Subject: [PATCH 04/30] fix: a zero histogram loss or a zero median is a value,
 not a missing one

---
 dataprofiler/profilers/numerical_column_stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index 6861b31..94a2da3 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -1548,7 +1548,7 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
                 self.histogram_methods[method]["histogram"] = histogram
                 self.histogram_methods[method]["current_loss"] = hist_loss
                 self.histogram_methods[method]["total_loss"] += hist_loss
-                if not best_hist_loss or hist_loss < best_hist_loss:
+                if best_hist_loss is None or hist_loss < best_hist_loss:
                     self.histogram_selection = method
                     best_hist_loss = hist_loss
 
@@ -1588,7 +1588,7 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
         quantiles: np.ndarray = np.interp(
             percentiles / 100, cumsum_bin_counts, bin_edges
         )
-        if median_value:
+        if median_value is not None:
             quantiles[percentiles == 50] = median_value
         return cast(List[float], quantiles.tolist())
 
-- 
2.43.0


From 8c03aa458d95740b9945ce5f5d402f0b55e35156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:51 +0000
Subject: [PATCH 05/30] fix: merging incompatible count-min sketches reports
 the incompatibility

---
 dataprofiler/profilers/categorical_column_profile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/categorical_column_profile.py b/dataprofiler/profilers/categorical_column_profile.py
index 1ca6309..1edce41 100644
--- a/dataprofiler/profilers/categorical_column_profile.py
+++ b/dataprofiler/profilers/categorical_column_profile.py
@@ -562,12 +562,12 @@ class CategoricalColumn(BaseColumnProfiler["CategoricalColumn"]):
             cms3.merge(cms1)
             cms3.merge(cms2)
         except ValueError as err:
-            raise err(
+            raise ValueError(
                 """Incompatible sketch configuration. When merging two sketches,
                 they must have the same number of buckets and hashes,
                 which are defined by cms_confidence and cms_relative_error options,
                 respectively."""
-            )
+            ) from err
 
         # re-collecting the estimates of non intersecting categories before
         # re-applying heavy-hitters to the aggregate profile.
-- 
2.43.0


From 5584e3b97cb13e49751e3bb90e6287aafd7643bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:06 +0000
Subject: [PATCH 06/30] fix: a merged count-min-sketch categorical profile can
 still be updated or merged

---
 dataprofiler/profilers/categorical_column_profile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dataprofiler/profilers/categorical_column_profile.py b/dataprofiler/profilers/categorical_column_profile.py
index 1edce41..2b958c6 100644
--- a/dataprofiler/profilers/categorical_column_profile.py
+++ b/dataprofiler/profilers/categorical_column_profile.py
@@ -131,6 +131,8 @@ class CategoricalColumn(BaseColumnProfiler["CategoricalColumn"]):
                 other.sample_size,
                 cms_max_num_heavy_hitters,
             )
+            merged_profile.cms_num_hashes = self.cms_num_hashes
+            merged_profile.cms_num_buckets = self.cms_num_buckets
 
         elif not self.cms and not other.cms:
             # If both profiles have not met stop condition
-- 
2.43.0


From 1eb6b90c7e7ff64b4a7aff0996d7ea3cbf8e36a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:06 +0000
Subject: [PATCH 07/30] fix: merging categorical profiles keeps the
 top_k_categories limit

---
 dataprofiler/profilers/categorical_column_profile.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dataprofiler/profilers/categorical_column_profile.py b/dataprofiler/profilers/categorical_column_profile.py
index 2b958c6..6322199 100644
--- a/dataprofiler/profilers/categorical_column_profile.py
+++ b/dataprofiler/profilers/categorical_column_profile.py
@@ -109,6 +109,12 @@ class CategoricalColumn(BaseColumnProfiler["CategoricalColumn"]):
             merged_profile.__calculations, self.__calculations, other.__calculations
         )
 
+        # Keep the larger limit on reported categories, no limit being the largest
+        if self._top_k_categories is not None and other._top_k_categories is not None:
+            merged_profile._top_k_categories = max(
+                self._top_k_categories, other._top_k_categories
+            )
+
         if self.cms and other.cms:
 
             assert isinstance(self._cms_max_num_heavy_hitters, int)
-- 
2.43.0


From bcfac9695abb1588e83b9a1c17617589293c2bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:23 +0000
Subject: [PATCH 08/30] fix: row statistics option errors are reported by
 validation

---
 dataprofiler/profilers/profiler_options.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/profiler_options.py b/dataprofiler/profilers/profiler_options.py
index 038acf8..0120b7b 100644
--- a/dataprofiler/profilers/profiler_options.py
+++ b/dataprofiler/profilers/profiler_options.py
@@ -1204,7 +1204,7 @@ class RowStatisticsOptions(BooleanOption["RowStatisticsOptions"]):
 
         errors += self.unique_count._validate_helper(variable_path + ".unique_counts")
         errors += self.null_count._validate_helper(variable_path + ".null_count")
-        return super()._validate_helper(variable_path)
+        return errors
 
 
 class DataLabelerOptions(BaseInspectorOptions["DataLabelerOptions"]):
-- 
2.43.0


From fde02ea89a309ad118fdefaaa79bea95d8fdd4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:23 +0000
Subject: [PATCH 09/30] fix: vocab and words options of the text profiler are
 validated

---
 dataprofiler/profilers/profiler_options.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dataprofiler/profilers/profiler_options.py b/dataprofiler/profilers/profiler_options.py
index 0120b7b..4ed5124 100644
--- a/dataprofiler/profilers/profiler_options.py
+++ b/dataprofiler/profilers/profiler_options.py
@@ -1416,11 +1416,15 @@ class TextProfilerOptions(BaseInspectorOptions["TextProfilerOptions"]):
             errors.append(
                 "{}.vocab must be a BooleanOption " "object.".format(variable_path)
             )
+        else:
+            errors += self.vocab._validate_helper(variable_path + ".vocab")
 
         if not isinstance(self.words, BooleanOption):
             errors.append(
                 "{}.words must be a BooleanOption " "object.".format(variable_path)
             )
+        else:
+            errors += self.words._validate_helper(variable_path + ".words")
 
         return errors
 
-- 
2.43.0


From de695bd3b26e44a4764c2bfe626f14845ebfdf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:23 +0000
Subject: [PATCH 10/30] fix: the cms option of categorical columns is validated

---
 dataprofiler/profilers/profiler_options.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataprofiler/profilers/profiler_options.py b/dataprofiler/profilers/profiler_options.py
index 4ed5124..4cc47e9 100644
--- a/dataprofiler/profilers/profiler_options.py
+++ b/dataprofiler/profilers/profiler_options.py
@@ -1024,6 +1024,9 @@ class CategoricalOptions(BaseInspectorOptions["CategoricalOptions"]):
                 " or a float between 0 and 1".format(variable_path)
             )
 
+        if not isinstance(self.cms, bool):
+            errors.append(f"{variable_path}.cms must be a Boolean.")
+
         if self.cms and not isinstance(self.cms_max_num_heavy_hitters, int):
             errors.append(
                 "{}.if using count min sketch, you must pass an"
-- 
2.43.0


From 304f16c865a8b0b7877420282cd16a18ac101c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:23 +0000
Subject: [PATCH 11/30] fix: a data labeler column profile merges with one that
 has seen no data

---
 dataprofiler/profilers/data_labeler_column_profile.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dataprofiler/profilers/data_labeler_column_profile.py b/dataprofiler/profilers/data_labeler_column_profile.py
index d9bfe1e..5913787 100644
--- a/dataprofiler/profilers/data_labeler_column_profile.py
+++ b/dataprofiler/profilers/data_labeler_column_profile.py
@@ -182,14 +182,14 @@ class DataLabelerColumn(BaseColumnProfiler["DataLabelerColumn"]):
         # Combine rank distribution
         if self.sample_size or other.sample_size:
             merged_profile._rank_distribution = {
-                key: self._rank_distribution.get(key, 0)
-                + other._rank_distribution.get(key, 0)
-                for key in set(self._rank_distribution) | set(other._rank_distribution)
+                key: self.rank_distribution.get(key, 0)
+                + other.rank_distribution.get(key, 0)
+                for key in set(self.rank_distribution) | set(other.rank_distribution)
             }
 
             # Combine Sum Predictions
             merged_profile._sum_predictions = (
-                self._sum_predictions + other._sum_predictions
+                self.sum_predictions + other.sum_predictions
             )
         return merged_profile
 
-- 
2.43.0


From 69b59d70a42bc22e7ff2488b7c5f22d595cdfe47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:34 +0000
Subject: [PATCH 12/30] fix: a column's null ratio covers every batch seen, not
 only the last one

---
 dataprofiler/profilers/profile_builder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 6e51265..5176c00 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -432,7 +432,8 @@ class StructuredColProfiler:
         self._last_batch_size = base_stats["sample_size"]
         self.sample = base_stats["sample"]
         self.null_count += base_stats["null_count"]
-        self.null_ratio = base_stats["null_count"] / base_stats["sample_size"]
+        if self.sample_size:
+            self.null_ratio = self.null_count / self.sample_size
         self.null_types = profiler_utils._combine_unique_sets(
             self.null_types, list(base_stats["null_types"].keys())
         )
-- 
2.43.0


From 46b6e99f18e4dcb0446f0dbb278630ac573de551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:34 +0000
Subject: [PATCH 13/30] fix: merging profiles that estimate unique rows leaves
 the operands unchanged

---
 dataprofiler/profilers/profile_builder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 5176c00..58a6823 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -1806,8 +1806,8 @@ class StructuredProfiler(BaseProfiler):
                 elif isinstance(self.hashed_row_object, HyperLogLog) and isinstance(
                     other.hashed_row_object, HyperLogLog
                 ):
-                    self.hashed_row_object.merge(other.hashed_row_object),
-                    merged_profile.hashed_row_object = self.hashed_row_object
+                    merged_profile.hashed_row_object.merge(self.hashed_row_object)
+                    merged_profile.hashed_row_object.merge(other.hashed_row_object)
 
         self_to_other_idx = self._get_and_validate_schema_mapping(
             self._col_name_to_idx, other._col_name_to_idx
-- 
2.43.0


From 501e8ae880d75f6c98dd40d847aa2fd76f6ba20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:34 +0000
Subject: [PATCH 14/30] fix: a pickled profile keeps its correlation matrix,
 null metrics and sampling settings

---
 dataprofiler/profilers/profile_builder.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 58a6823..fcb5db5 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -1613,6 +1613,8 @@ class UnstructuredProfiler(BaseProfiler):
                 "_empty_line_count": self._empty_line_count,
                 "memory_size": self.memory_size,
                 "options": self.options,
+                "_sampling_ratio": self._sampling_ratio,
+                "_min_sample_size": self._min_sample_size,
                 "_profile": self.profile,
                 "times": self.times,
             }
@@ -3061,7 +3063,11 @@ class StructuredProfiler(BaseProfiler):
                 "_samples_per_update": self._samples_per_update,
                 "_min_true_samples": self._min_true_samples,
                 "options": self.options,
+                "correlation_matrix": self.correlation_matrix,
                 "chi2_matrix": self.chi2_matrix,
+                "_null_replication_metrics": self._null_replication_metrics,
+                "_sampling_ratio": self._sampling_ratio,
+                "_min_sample_size": self._min_sample_size,
                 "_profile": self.profile,
                 "_col_name_to_idx": self._col_name_to_idx,
                 "times": self.times,
-- 
2.43.0


From f44ce36e4e26d6b51d72ae7f4496839e195605bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:34 +0000
Subject: [PATCH 15/30] fix: null replication metrics loaded from json are
 keyed by column index again

---
 dataprofiler/profilers/profile_builder.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index fcb5db5..8de74f8 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2142,6 +2142,11 @@ class StructuredProfiler(BaseProfiler):
             int(k): v for k, v in data["hashed_row_object"].items()
         }
 
+        if data["_null_replication_metrics"] is not None:
+            data["_null_replication_metrics"] = {
+                int(k): v for k, v in data["_null_replication_metrics"].items()
+            }
+
         structured_profiler = super().load_from_dict(data, config)
 
         return structured_profiler
-- 
2.43.0


From 71044cd2cf4a2a005833405409aec21de46b2e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:34 +0000
Subject: [PATCH 16/30] fix: a failed pickle save gives the profile its data
 labelers back

---
 dataprofiler/profilers/profile_builder.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 8de74f8..e25165c 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -1132,12 +1132,13 @@ class BaseProfiler:
         # add profiler class to data_dict
         data_dict["profiler_class"] = self.__class__.__name__
 
-        # Pickle and save profile to disk
-        with open(filepath, "wb") as outfile:
-            pickle.dump(data_dict, outfile)
-
-        # Restore all data labelers
-        self._restore_data_labelers(data_labelers)
+        try:
+            # Pickle and save profile to disk
+            with open(filepath, "wb") as outfile:
+                pickle.dump(data_dict, outfile)
+        finally:
+            # Restore all data labelers
+            self._restore_data_labelers(data_labelers)
 
     def _json_save_helper(self, filepath: str | None) -> None:
         """
-- 
2.43.0


From 08c4751d2d247670bf00a7a9c26b1a4550f69c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:12 +0000
Subject: [PATCH 17/30] fix: merged correlation matrices align columns by name
 and keep non-numeric columns

---
 dataprofiler/profilers/profile_builder.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index e25165c..86d4aed 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2405,6 +2405,13 @@ class StructuredProfiler(BaseProfiler):
         if corr_mat1 is None or corr_mat2 is None:
             return None
 
+        # put the columns of other in the order of self's columns
+        self_to_other_idx = self._get_and_validate_schema_mapping(
+            self._col_name_to_idx, other._col_name_to_idx
+        )
+        other_ids = [self_to_other_idx[idx] for idx in range(len(self._profile))]
+        corr_mat2 = corr_mat2[np.ix_(other_ids, other_ids)]
+
         # get column indices without nan
         col_ids1 = np.where(~np.isnan(corr_mat1).all(axis=0))[0]
         col_ids2 = np.where(~np.isnan(corr_mat2).all(axis=0))[0]
@@ -2431,21 +2438,24 @@ class StructuredProfiler(BaseProfiler):
 
         mean2 = np.array(
             [
-                other._profile[idx].profile["statistics"]["mean"]
+                other._profile[other_ids[idx]].profile["statistics"]["mean"]
                 for idx in range(len(self._profile))
                 if idx in col_ids2
             ]
         )
         std2 = np.array(
             [
-                other._profile[idx].profile["statistics"]["stddev"]
+                other._profile[other_ids[idx]].profile["statistics"]["stddev"]
                 for idx in range(len(self._profile))
                 if idx in col_ids2
             ]
         )
-        return self._merge_correlation_helper(
-            corr_mat1, mean1, std1, n1, corr_mat2, mean2, std2, n2
+        col_ids = np.ix_(col_ids1, col_ids1)
+        corr_mat = np.full(corr_mat1.shape, np.nan)
+        corr_mat[col_ids] = self._merge_correlation_helper(
+            corr_mat1[col_ids], mean1, std1, n1, corr_mat2[col_ids], mean2, std2, n2
         )
+        return corr_mat
 
     def _get_correlation_dependent_properties(self, batch: dict = None) -> dict:
         """
-- 
2.43.0


From 82b57c239e6f591c3ec3cf4f76c932c37c577d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:43 +0000
Subject: [PATCH 18/30] fix: merged null replication metrics align columns by
 name and skip datetime sums

---
 dataprofiler/profilers/profile_builder.py | 25 +++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 86d4aed..b943f21 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2721,27 +2721,34 @@ class StructuredProfiler(BaseProfiler):
             "data_type_profile"
         ]._profiles[get_data_type(profile)]
 
+        # indices of other's columns in the order of self's columns
+        self_to_other_idx = self._get_and_validate_schema_mapping(
+            self._col_name_to_idx, other._col_name_to_idx
+        )
+        other_ids = [self_to_other_idx[idx] for idx in range(len(self._profile))]
+
         self_row_sum = np.asarray(
             [
                 get_data_type_profiler(profile).sum
-                if get_data_type(profile)
+                if get_data_type(profile) not in [None, "datetime"]
                 else np.nan
                 for profile in self._profile
             ]
         )
         other_row_sum = np.asarray(
             [
-                get_data_type_profiler(profile).sum
-                if get_data_type(profile)
+                get_data_type_profiler(other._profile[other_id]).sum
+                if get_data_type(other._profile[other_id]) not in [None, "datetime"]
                 else np.nan
-                for profile in other._profile
+                for other_id in other_ids
             ]
         )
         total_row_sum: np.ndarray = self_row_sum + other_row_sum
         merged_properties: dict = defaultdict(dict)
         for col_id in range(len(self._profile)):
             self_profile = self._profile[col_id]
-            other_profile = other._profile[col_id]
+            other_id = other_ids[col_id]
+            other_profile = other._profile[other_id]
 
             self_null_count = getattr(self_profile, "null_count")
             other_null_count = getattr(other_profile, "null_count")
@@ -2763,8 +2770,8 @@ class StructuredProfiler(BaseProfiler):
                 else None
             )
             other_sum_null = (
-                other._null_replication_metrics[col_id]["class_sum"][1]
-                if col_id in other._null_replication_metrics
+                other._null_replication_metrics[other_id]["class_sum"][1]
+                if other_id in other._null_replication_metrics
                 else None
             )
             # Initialize zeros array of size (number of columns - 1)
@@ -2776,7 +2783,9 @@ class StructuredProfiler(BaseProfiler):
                 sum_null += np.asarray(self_sum_null)
 
             if other_sum_null is not None:
-                sum_null += np.asarray(other_sum_null)
+                # the sums skip other's own column and follow other's order
+                other_sum_null = np.insert(other_sum_null, other_id, 0)
+                sum_null += np.delete(other_sum_null[other_ids], col_id)
 
             sum_not_null = np.delete(total_row_sum, col_id) - sum_null
 
-- 
2.43.0


From 26751e2b64fe78e7cb207e0518eada5ae88ba0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:34 +0000
Subject: [PATCH 19/30] fix: structured column sampling follows the configured
 seed

---
 dataprofiler/profilers/data_labeler_column_profile.py | 4 +++-
 dataprofiler/profilers/datetime_column_profile.py     | 6 +++++-
 dataprofiler/profilers/float_column_profile.py        | 6 +++++-
 dataprofiler/profilers/profile_builder.py             | 4 +++-
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/dataprofiler/profilers/data_labeler_column_profile.py b/dataprofiler/profilers/data_labeler_column_profile.py
index 5913787..eb9107f 100644
--- a/dataprofiler/profilers/data_labeler_column_profile.py
+++ b/dataprofiler/profilers/data_labeler_column_profile.py
@@ -7,6 +7,7 @@ from typing import Dict, cast
 import numpy as np
 from pandas import DataFrame, Series
 
+from .. import rng_utils
 from ..labelers.base_data_labeler import BaseDataLabeler
 from ..labelers.data_labelers import DataLabeler
 from . import profiler_utils
@@ -461,7 +462,8 @@ class DataLabelerColumn(BaseColumnProfiler["DataLabelerColumn"]):
             return self
 
         sample_size = min(len(df_series), self._max_sample_size)
-        df_series = df_series.sample(sample_size)
+        rng = rng_utils.get_random_number_generator()
+        df_series = df_series.sample(sample_size, random_state=rng)
 
         profile = dict(sample_size=sample_size)
         self._update_predictions(
diff --git a/dataprofiler/profilers/datetime_column_profile.py b/dataprofiler/profilers/datetime_column_profile.py
index af99283..04d44ce 100644
--- a/dataprofiler/profilers/datetime_column_profile.py
+++ b/dataprofiler/profilers/datetime_column_profile.py
@@ -8,6 +8,7 @@ import warnings
 import numpy as np
 import pandas as pd
 
+from .. import rng_utils
 from . import profiler_utils
 from .base_column_profilers import BaseColumnPrimitiveTypeProfiler, BaseColumnProfiler
 from .profiler_options import DateTimeOptions
@@ -358,7 +359,10 @@ class DateTimeColumn(BaseColumnPrimitiveTypeProfiler["DateTimeColumn"]):
         num_samples_to_check = 50
         thresh = 0.10
         sample_size = min(num_samples_to_check, len(df_series))
-        profile = self._get_datetime_profile(df_series.sample(sample_size))
+        rng = rng_utils.get_random_number_generator()
+        profile = self._get_datetime_profile(
+            df_series.sample(sample_size, random_state=rng)
+        )
 
         if profile["match_count"] / sample_size < thresh:
             return False
diff --git a/dataprofiler/profilers/float_column_profile.py b/dataprofiler/profilers/float_column_profile.py
index 6cfd47f..0f3daad 100644
--- a/dataprofiler/profilers/float_column_profile.py
+++ b/dataprofiler/profilers/float_column_profile.py
@@ -7,6 +7,7 @@ import re
 import numpy as np
 import pandas as pd
 
+from .. import rng_utils
 from . import profiler_utils
 from .base_column_profilers import BaseColumnPrimitiveTypeProfiler, BaseColumnProfiler
 from .numerical_column_stats import NumericStatsMixin
@@ -304,8 +305,11 @@ class FloatColumn(
             sample_size = int(len_df * sample_ratio)
 
         # length of sampled cells after all punctuation removed
+        rng = rng_utils.get_random_number_generator()
         len_per_float = (
-            df_series_clean.sample(sample_size).replace(to_replace=r, value="").map(len)
+            df_series_clean.sample(sample_size, random_state=rng)
+            .replace(to_replace=r, value="")
+            .map(len)
         ).astype(float)
 
         # Determine statistics precision
diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index b943f21..2f0ca6b 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -246,7 +246,9 @@ class StructuredColProfiler:
             }
         )
         samples = list(dict.fromkeys(self.sample + other.sample))
-        merged_profile.sample = random.sample(samples, min(len(samples), 5))
+        rng = rng_utils.get_random_number_generator()
+        sample_ids = rng.choice(len(samples), min(len(samples), 5), replace=False)
+        merged_profile.sample = [samples[sample_id] for sample_id in sample_ids]
         for profile_name in self.profiles:
             merged_profile.profiles[profile_name] = (
                 self.profiles[profile_name] + other.profiles[profile_name]
-- 
2.43.0


From 4a0aec153012679568fa77230960bbd590b0730d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:16 +0000
Subject: [PATCH 20/30] fix: data readers sample and shuffle with the
 configured seed

---
 dataprofiler/data_readers/base_data.py  |  5 ++---
 dataprofiler/data_readers/csv_data.py   | 10 ++++++----
 dataprofiler/data_readers/data_utils.py |  4 ++--
 3 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/dataprofiler/data_readers/base_data.py b/dataprofiler/data_readers/base_data.py
index 27d8d5d..58e21be 100644
--- a/dataprofiler/data_readers/base_data.py
+++ b/dataprofiler/data_readers/base_data.py
@@ -5,10 +5,9 @@ from collections import OrderedDict
 from io import StringIO
 from typing import Any, Dict, Generator, List, Optional, Union
 
-import numpy as np
 import pandas as pd
 
-from .. import dp_logging
+from .. import dp_logging, rng_utils
 from . import data_utils
 
 logger = dp_logging.get_child_logger(__name__)
@@ -154,7 +153,7 @@ class BaseData:
     ) -> Generator[Union[pd.DataFrame, List], None, None]:
         """Get batch generator."""
         data_length = len(self.data)
-        indices = np.random.permutation(data_length)
+        indices = rng_utils.get_random_number_generator().permutation(data_length)
         for i in range(0, data_length, batch_size):
             if isinstance(self.data, pd.DataFrame):
                 yield self.data.iloc[indices[i : i + batch_size], :]
diff --git a/dataprofiler/data_readers/csv_data.py b/dataprofiler/data_readers/csv_data.py
index 7e13d40..fe79f49 100644
--- a/dataprofiler/data_readers/csv_data.py
+++ b/dataprofiler/data_readers/csv_data.py
@@ -1,6 +1,5 @@
 """Contains class that saves and loads spreadsheet data."""
 import csv
-import random
 import re
 from collections import Counter
 from io import StringIO
@@ -9,6 +8,7 @@ from typing import Dict, List, Optional, Tuple, Union, cast
 import numpy as np
 import pandas as pd
 
+from .. import rng_utils
 from . import data_utils
 from .avro_data import AVROData
 from .base_data import BaseData
@@ -255,9 +255,11 @@ class CSVData(SpreadSheetDataMixin, BaseData):
             proposed_dataset = data_as_str.split("\n")
             if len(proposed_dataset) > 25:
                 sample_count = min(int(0.1 * (len(proposed_dataset) - 25)), 1000)
-                proposed_dataset = proposed_dataset[:25] + random.choices(
-                    proposed_dataset[:25], k=sample_count
-                )
+                rng = rng_utils.get_random_number_generator()
+                proposed_dataset = proposed_dataset[:25] + [
+                    proposed_dataset[row_idx]
+                    for row_idx in rng.integers(0, 25, sample_count)
+                ]
 
             # Reverse to start at bottom where likely the most columns
             # Fewer columns are okay, as long as earlier in file
diff --git a/dataprofiler/data_readers/data_utils.py b/dataprofiler/data_readers/data_utils.py
index 611d25d..85f21b1 100644
--- a/dataprofiler/data_readers/data_utils.py
+++ b/dataprofiler/data_readers/data_utils.py
@@ -2,7 +2,6 @@
 import json
 import logging
 import os
-import random
 import re
 import urllib
 from collections import OrderedDict
@@ -503,7 +502,8 @@ def sample_parquet(
     n_rows = parquet_table.num_rows
     if n_rows > sample_nrows:
         sample_index = np.array([False] * n_rows)
-        sample_index[random.sample(range(n_rows), sample_nrows)] = True
+        rng = rng_utils.get_random_number_generator()
+        sample_index[rng.choice(n_rows, sample_nrows, replace=False)] = True
     else:
         sample_index = np.array([True] * n_rows)
     sample_df = parquet_table.filter(sample_index).to_pandas()
-- 
2.43.0


From 44ddb90eafb7df1f0775b04bbef856fc78e44d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:14 +0000
Subject: [PATCH 21/30] fix: reloading csv data honours the new options and
 leaves the caller's dict alone

---
 dataprofiler/data_readers/csv_data.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/dataprofiler/data_readers/csv_data.py b/dataprofiler/data_readers/csv_data.py
index fe79f49..c810943 100644
--- a/dataprofiler/data_readers/csv_data.py
+++ b/dataprofiler/data_readers/csv_data.py
@@ -763,10 +763,6 @@ class CSVData(SpreadSheetDataMixin, BaseData):
         :type options: dict
         :return: None
         """
-        if not options:
-            options = dict()
-        options.update(
-            header=self.header, delimiter=self.delimiter, quotechar=self.quotechar
-        )
+        options = dict(options) if options else dict()
         super().reload(input_file_path, data, options)
         CSVData.__init__(self, self.input_file_path, data, options)
-- 
2.43.0


From cacd9470a7e794e959af9da35a4ad76fd5bd9064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:14 +0000
Subject: [PATCH 22/30] fix: creating a Data object leaves the caller's options
 dict alone

---
 dataprofiler/data_readers/data.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dataprofiler/data_readers/data.py b/dataprofiler/data_readers/data.py
index 8a3e6d9..66ed935 100644
--- a/dataprofiler/data_readers/data.py
+++ b/dataprofiler/data_readers/data.py
@@ -61,8 +61,7 @@ class Data:
                 "In memory data must be specified as a specific data type."
             )
 
-        if not options:
-            options = dict()
+        options = dict(options) if options else dict()
 
         if is_valid_url(input_file_path):
             if S3Helper.is_s3_uri(input_file_path, logger=logger):
-- 
2.43.0


From 79203f24e1854f26556dd522d933ec2ac13b44e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:14 +0000
Subject: [PATCH 23/30] fix: a failed csv read closes the file it opened and
 keeps the caller's buffer open

---
 dataprofiler/data_readers/data_utils.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/dataprofiler/data_readers/data_utils.py b/dataprofiler/data_readers/data_utils.py
index 85f21b1..25f54c6 100644
--- a/dataprofiler/data_readers/data_utils.py
+++ b/dataprofiler/data_readers/data_utils.py
@@ -424,17 +424,18 @@ def read_csv_df(
         is_file_open = True
 
     file_data = file_path
-    if sample_nrows:
-        file_data = rsample(file_path, sample_nrows, args)
-    fo = pd.read_csv(file_data, **args)
-    data = fo.read()
-
-    # if the buffer was wrapped, detach it before returning
-    if is_buf_wrapped:
-        file_path = cast(TextIOWrapper, file_path)
-        file_path.detach()
-    elif is_file_open:
-        file_path.close()
+    try:
+        if sample_nrows:
+            file_data = rsample(file_path, sample_nrows, args)
+        fo = pd.read_csv(file_data, **args)
+        data = fo.read()
+    finally:
+        # if the buffer was wrapped, detach it before returning
+        if is_buf_wrapped:
+            file_path = cast(TextIOWrapper, file_path)
+            file_path.detach()
+        elif is_file_open:
+            file_path.close()
     fo.close()
 
     return data
-- 
2.43.0


From 5dc24638eebc71713afb5e9427548a190b190d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:42 +0000
Subject: [PATCH 24/30] fix: regex model predicts nothing for empty input

---
 dataprofiler/labelers/regex_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/labelers/regex_model.py b/dataprofiler/labelers/regex_model.py
index c6a690c..cd40803 100644
--- a/dataprofiler/labelers/regex_model.py
+++ b/dataprofiler/labelers/regex_model.py
@@ -225,7 +225,7 @@ class RegexModel(BaseModel, metaclass=AutoSubRegistrationMeta):
         # Construct array initial regex predictions where background is
         # predicted.
         predictions = [np.empty((0,))] * 100
-        i = 0
+        i = -1
         for i, input_string in enumerate(data):
 
             # Double array size
-- 
2.43.0


From 6eff0d790c00b2c9310f171933ea007e3644f6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:30 +0000
Subject: [PATCH 25/30] fix: a compact report no longer extends the caller's
 list of omitted keys

---
 dataprofiler/profilers/helpers/report_helpers.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/dataprofiler/profilers/helpers/report_helpers.py b/dataprofiler/profilers/helpers/report_helpers.py
index 0588252..96ec553 100644
--- a/dataprofiler/profilers/helpers/report_helpers.py
+++ b/dataprofiler/profilers/helpers/report_helpers.py
@@ -124,15 +124,13 @@ def _prepare_report(
     max_array_len = 5
 
     if output_format == "compact":
-        omit_keys.extend(
-            [
-                "data_stats.*.statistics.times",
-                "data_stats.*.statistics.avg_predictions",
-                "data_stats.*.statistics.data_label_representation",
-                "data_stats.*.statistics.null_types_index",
-                "data_stats.*.statistics.histogram",
-            ]
-        )
+        omit_keys = omit_keys + [
+            "data_stats.*.statistics.times",
+            "data_stats.*.statistics.avg_predictions",
+            "data_stats.*.statistics.data_label_representation",
+            "data_stats.*.statistics.null_types_index",
+            "data_stats.*.statistics.histogram",
+        ]
         output_format = "pretty"
 
     for key in report:
-- 
2.43.0


From ad1001c4e9f62f77dded22d277caab1383bf2ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:30 +0000
Subject: [PATCH 26/30] fix: labeler models keep a copy of the parameters they
 are given

---
 dataprofiler/labelers/base_model.py        | 2 +-
 dataprofiler/labelers/column_name_model.py | 4 ++--
 dataprofiler/labelers/regex_model.py       | 3 +--
 3 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/dataprofiler/labelers/base_model.py b/dataprofiler/labelers/base_model.py
index 032c2ea..9961e4e 100644
--- a/dataprofiler/labelers/base_model.py
+++ b/dataprofiler/labelers/base_model.py
@@ -54,7 +54,7 @@ class BaseModel(metaclass=abc.ABCMeta):
         # initialize class
         self._model: Any = None
         self._validate_parameters(parameters)
-        self._parameters: dict = parameters
+        self._parameters: dict = copy.deepcopy(parameters)
         self._label_mapping: dict[str, int] = None  # type: ignore
 
         self.set_label_mapping(label_mapping)
diff --git a/dataprofiler/labelers/column_name_model.py b/dataprofiler/labelers/column_name_model.py
index d698cfd..166c2a6 100644
--- a/dataprofiler/labelers/column_name_model.py
+++ b/dataprofiler/labelers/column_name_model.py
@@ -1,6 +1,7 @@
 """Contains class for column name data labeling model."""
 from __future__ import annotations
 
+import copy
 import json
 import os
 from typing import Any, Callable
@@ -37,8 +38,7 @@ class ColumnNameModel(BaseModel, metaclass=AutoSubRegistrationMeta):
         :return: None
         """
         # parameter initialization
-        if not parameters:
-            parameters = {}
+        parameters = copy.deepcopy(parameters) if parameters else {}
         parameters.setdefault("false_positive_dict", None)
         parameters.setdefault("true_positive_dict", None)
         parameters.setdefault("include_label", True)
diff --git a/dataprofiler/labelers/regex_model.py b/dataprofiler/labelers/regex_model.py
index cd40803..73580eb 100644
--- a/dataprofiler/labelers/regex_model.py
+++ b/dataprofiler/labelers/regex_model.py
@@ -54,8 +54,7 @@ class RegexModel(BaseModel, metaclass=AutoSubRegistrationMeta):
         :return: None
         """
         # parameter initialization
-        if not parameters:
-            parameters = {}
+        parameters = copy.deepcopy(parameters) if parameters else {}
         parameters.setdefault("regex_patterns", {})
         parameters.setdefault("encapsulators", {"start": "", "end": ""})
         parameters.setdefault("ignore_case", True)
-- 
2.43.0


From 1868e9b05f30e2b43d8f52249b5a24f3a6467f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:30 +0000
Subject: [PATCH 27/30] fix: postprocessors no longer rewrite the random state
 list they are given

---
 dataprofiler/labelers/data_processing.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/dataprofiler/labelers/data_processing.py b/dataprofiler/labelers/data_processing.py
index d53980a..c808f50 100644
--- a/dataprofiler/labelers/data_processing.py
+++ b/dataprofiler/labelers/data_processing.py
@@ -1555,10 +1555,11 @@ class StructCharPostprocessor(BaseDataPostprocessor, metaclass=AutoSubRegistrati
             random_state = random.Random(random_state)
         elif isinstance(random_state, (list, tuple)) and len(random_state) == 3:
             # tuple required for random state to be set, lists do not work
-            if isinstance(random_state, list) and isinstance(random_state[1], list):
-                random_state[1] = tuple(random_state[1])
             if isinstance(random_state, list):
-                random_state = tuple(random_state)
+                random_state = tuple(
+                    tuple(part) if isinstance(part, list) else part
+                    for part in random_state
+                )
             temp_random_state = random.Random()
             try:
                 temp_random_state.setstate(random_state)
@@ -1894,10 +1895,11 @@ class RegexPostProcessor(BaseDataPostprocessor, metaclass=AutoSubRegistrationMet
             random_state = random.Random(random_state)
         elif isinstance(random_state, (list, tuple)) and len(random_state) == 3:
             # tuple required for random state to be set, lists do not work
-            if isinstance(random_state, list) and isinstance(random_state[1], list):
-                random_state[1] = tuple(random_state[1])
             if isinstance(random_state, list):
-                random_state = tuple(random_state)
+                random_state = tuple(
+                    tuple(part) if isinstance(part, list) else part
+                    for part in random_state
+                )
             temp_random_state = random.Random()
             try:
                 temp_random_state.setstate(random_state)
-- 
2.43.0


From 146aacdf0c5f504cabc38bb81dd7edf9ff7e4185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:30 +0000
Subject: [PATCH 28/30] fix: reloading a reader no longer changes the caller's
 options

---
 dataprofiler/data_readers/base_data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dataprofiler/data_readers/base_data.py b/dataprofiler/data_readers/base_data.py
index 58e21be..5b7fcfd 100644
--- a/dataprofiler/data_readers/base_data.py
+++ b/dataprofiler/data_readers/base_data.py
@@ -182,7 +182,9 @@ class BaseData:
         :type options: dict
         :return: None
         """
-        if input_file_path and not self.is_match(input_file_path, options):
+        # recognising a source may add to the options it is given
+        match_options = dict(options or {})
+        if input_file_path and not self.is_match(input_file_path, match_options):
             raise ValueError("Reloaded dataset does not match the specified data_type")
         elif input_file_path:
             self.input_file_path = input_file_path
-- 
2.43.0


From a6a8db3da47b686ee4adfe6d2aecc9c5869faec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:30 +0000
Subject: [PATCH 29/30] fix: a column whose name changed is rejected before its
 counts are updated

---
 dataprofiler/profilers/profile_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 2f0ca6b..ea2e2bc 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -516,8 +516,8 @@ class StructuredColProfiler:
             sample_ids=sample_ids,
         )
 
-        self._update_base_stats(base_stats)
         self.update_column_profilers(clean_sampled_df, pool)
+        self._update_base_stats(base_stats)
 
     def _get_sample_size(self, df_series: pd.Series) -> int:
         """
-- 
2.43.0


From 6e34260a98359d6dc3eb59a31afc99fb4293ef4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:30 +0000
Subject: [PATCH 30/30] fix: merging a list of profiles gives the profiles
 their labelers back

---
 dataprofiler/profilers/profiler_utils.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/dataprofiler/profilers/profiler_utils.py b/dataprofiler/profilers/profiler_utils.py
index e38e1b0..8fcae51 100644
--- a/dataprofiler/profilers/profiler_utils.py
+++ b/dataprofiler/profilers/profiler_utils.py
@@ -838,13 +838,18 @@ def merge_profile_list(
     # remove the labeler model from the first profile object
     # assuming that the labeler models are all the same across each profile
     # in the list
-    for profile in list_of_profiles:
-        data_labeler = profile._remove_data_labelers()
+    profiles = list(list_of_profiles)
+    data_labeler = [profile._remove_data_labelers() for profile in profiles][0]
 
-    while len(list_of_profiles) > 1:
-        list_of_profiles_iterator = chunk(list_of_profiles, 2)
-        with mp.Pool(pool_count) as p:
-            list_of_profiles = p.starmap(merge, list_of_profiles_iterator)
+    try:
+        while len(list_of_profiles) > 1:
+            list_of_profiles_iterator = chunk(list_of_profiles, 2)
+            with mp.Pool(pool_count) as p:
+                list_of_profiles = p.starmap(merge, list_of_profiles_iterator)
+    finally:
+        # the profiles handed in keep their labelers
+        for profile in profiles:
+            profile._restore_data_labelers(data_labeler)
 
     list_of_profiles[0]._restore_data_labelers(data_labeler)
     return list_of_profiles[0]
-- 
2.43.0

