N = "profilers/numerical_column_stats.py"
merge_minmax_helper = [(N, '''            if other1.min is not None and other2.min is not None:
                self.min = min(other1.min, other2.min)
            elif other2.min is None:
                self.min = other1.min
            else:
                self.min = other2.min
''', '''            self.min = self._pick_extreme(min, other1.min, other2.min)
'''), (N, '''            if other1.max is not None and other2.max is not None:
                self.max = max(other1.max, other2.max)
            elif other2.max is None:
                self.max = other1.max
            else:
                self.max = other2.max
''', '''            self.max = self._pick_extreme(max, other1.max, other2.max)
'''), (N, '''    def profile(self) -> dict:
        """
        Return profile of the column.
''', '''    @staticmethod
    def _pick_extreme(func, first, second):
        """Combine two possibly missing extremes."""
        if second is None:
            return first
        if first is None:
            return second
        return func(first, second)

    def profile(self) -> dict:
        """
        Return profile of the column.
''')]
bias_and = [(N, '''        self.bias_correction = True
        if not other1.bias_correction or not other2.bias_correction:
            self.bias_correction = False
''', '''        self.bias_correction = bool(
            other1.bias_correction and other2.bias_correction
        )
''')]
calcs_local = [(N, '''        # Check and potentially override bias correction computation
        self.bias_correction = True''', '''        calculations = self.__calculations

        # Check and potentially override bias correction computation
        self.bias_correction = True'''),
 (N, 'if "variance" in self.__calculations.keys():', 'if "variance" in calculations:'),
 (N, 'if "min" in self.__calculations.keys():', 'if "min" in calculations:'),
 (N, 'if "max" in self.__calculations.keys():', 'if "max" in calculations:'),
 (N, 'if "sum" in self.__calculations.keys():', 'if "sum" in calculations:'),
 (N, 'if "skewness" in self.__calculations.keys():', 'if "skewness" in calculations:')]
profile_loop = [(N, '''        profile = dict(
            min=self.np_type_to_type(self.min),
            max=self.np_type_to_type(self.max),
            mode=self.np_type_to_type(self.mode),
            median=self.np_type_to_type(self.median),
            sum=self.np_type_to_type(self.sum),
            mean=self.np_type_to_type(self.mean),
            variance=self.np_type_to_type(self.variance),
            stddev=self.np_type_to_type(self.stddev),
            skewness=self.np_type_to_type(self.skewness),
            kurtosis=self.np_type_to_type(self.kurtosis),
''', '''        profile = {
            name: self.np_type_to_type(getattr(self, name))
            for name in (
                "min",
                "max",
                "mode",
                "median",
                "sum",
                "mean",
                "variance",
                "stddev",
                "skewness",
                "kurtosis",
            )
        }
        profile.update(
''')]
report_helper = [(N, '''            profile_keys = list(profile.keys())
            for profile_key in profile_keys:
                if profile_key in ["mode", "quantiles", "histogram"]:
                    if "histogram_and_quantiles" in calcs_dict_keys:
                        continue
                elif profile_key == "stddev" and "variance" in calcs_dict_keys:
                    continue
                elif profile_key in calcs_dict_keys:
                    continue
                elif profile_key == "times":
                    continue
                profile.pop(profile_key)
''', '''            for profile_key in list(profile):
                if not self._is_reported(profile_key, calcs_dict_keys):
                    del profile[profile_key]
'''), (N, '''    def report(self, remove_disabled_flag: bool = False) -> dict:
        """
        Call the profile''', '''    @staticmethod
    def _is_reported(profile_key, calcs_dict_keys):
        if profile_key in ("mode", "quantiles", "histogram"):
            return "histogram_and_quantiles" in calcs_dict_keys
        if profile_key == "stddev" and "variance" in calcs_dict_keys:
            return True
        return profile_key in calcs_dict_keys or profile_key == "times"

    def report(self, remove_disabled_flag: bool = False) -> dict:
        """
        Call the profile''')]
report_pop_none = [(N, '''                elif profile_key == "stddev" and "variance" in calcs_dict_keys:
                    continue
                elif profile_key in calcs_dict_keys:
                    continue
                elif profile_key == "times":
                    continue
''', '''                elif (
                    profile_key in calcs_dict_keys
                    or profile_key == "times"
                    or (profile_key == "stddev" and "variance" in calcs_dict_keys)
                ):
                    continue
''')]
mean_ternary = [(N, '''        if self.match_count == 0:
            return 0.0
        return self.sum / self.match_count
''', '''        count = self.match_count
        return self.sum / count if count != 0 else 0.0
''')]
median_pos = [(N, '''        if not self._has_histogram or not self._median_is_enabled:
            return np.nan
        return self._get_percentile([50])[0]
''', '''        if self._has_histogram and self._median_is_enabled:
            (median,) = self._get_percentile([50])
            return median
        return np.nan
''')]
variance_guard = [(N, '''        return (
            self._biased_variance
            if not self.bias_correction
            else self._correct_bias_variance(self.match_count, self._biased_variance)
        )
''', '''        if self.bias_correction:
            return self._correct_bias_variance(self.match_count, self._biased_variance)
        return self._biased_variance
''')]
ttest_extract = [(N, '''        conservative_t = scipy.stats.t(conservative_deg_of_free)
        conservative_p_val = (1 - conservative_t.cdf(abs(t))) * 2
        welch_t = scipy.stats.t(welch_deg_of_free)
        welch_p_val = (1 - welch_t.cdf(abs(t))) * 2

        results["conservative"]["p-value"] = float(conservative_p_val)
        results["welch"]["p-value"] = float(welch_p_val)
''', '''        def two_sided_p_value(deg_of_free):
            dist = scipy.stats.t(deg_of_free)
            return float(2 * (1 - dist.cdf(abs(t))))

        results["conservative"]["p-value"] = two_sided_p_value(conservative_deg_of_free)
        results["welch"]["p-value"] = two_sided_p_value(welch_deg_of_free)
''')]
ttest_loop = [(N, '''        results["t-statistic"] = t
        results["conservative"]["deg_of_free"] = float(conservative_deg_of_free)
        results["welch"]["deg_of_free"] = float(welch_deg_of_free)

        conservative_t = scipy.stats.t(conservative_deg_of_free)
        conservative_p_val = (1 - conservative_t.cdf(abs(t))) * 2
        welch_t = scipy.stats.t(welch_deg_of_free)
        welch_p_val = (1 - welch_t.cdf(abs(t))) * 2

        results["conservative"]["p-value"] = float(conservative_p_val)
        results["welch"]["p-value"] = float(welch_p_val)
''', '''        results["t-statistic"] = t
        for name, deg_of_free in (
            ("conservative", conservative_deg_of_free),
            ("welch", welch_deg_of_free),
        ):
            t_dist = scipy.stats.t(deg_of_free)
            results[name]["deg_of_free"] = float(deg_of_free)
            results[name]["p-value"] = float((1 - t_dist.cdf(abs(t))) * 2)
''')]
ttest_flags = [(N, '''        invalid_stats = False
        if n1 <= 1 or n2 <= 1:
            warnings.warn(
                "Insufficient sample size. " "T-test cannot be performed.",
                RuntimeWarning,
            )
            invalid_stats = True
''', '''        invalid_stats = min(n1, n2) <= 1
        if invalid_stats:
            warnings.warn(
                "Insufficient sample size. T-test cannot be performed.",
                RuntimeWarning,
            )
''')]
psi_simplify = [(N, '''            histogram_edges_not_equal = False
            all_array_values_equal = np.array_equal(
                other_histogram["bin_edges"], self_histogram["bin_edges"]
            )
            if not all_array_values_equal:
                histogram_edges_not_equal = True

            if histogram_edges_not_equal:
''', '''            if not np.array_equal(
                other_histogram["bin_edges"], self_histogram["bin_edges"]
            ):
''')]
psi_all = [(N, '''        if (
            isinstance(self_histogram["bin_counts"], np.ndarray)
            and isinstance(self_histogram["bin_edges"], np.ndarray)
            and isinstance(other_histogram["bin_counts"], np.ndarray)
            and isinstance(other_histogram["bin_edges"], np.ndarray)
        ):
''', '''        if all(
            isinstance(hist[key], np.ndarray)
            for hist in (self_histogram, other_histogram)
            for key in ("bin_counts", "bin_edges")
        ):
''')]
merge_hist_loop = [(N, '''        # Generate new histograms
        _, hist_loss1 = self._assimilate_histogram(
            from_hist_entity_count_per_bin=other1._stored_histogram["histogram"][
                "bin_counts"
            ],
            from_hist_bin_edges=other1._stored_histogram["histogram"]["bin_edges"],
            dest_hist_entity_count_per_bin=new_entity_count_by_bin,
            dest_hist_bin_edges=ideal_bin_edges,
            dest_hist_num_bin=ideal_count_of_bins,
        )

        # Ensure loss is calculated on second run of regenerate
        _, hist_loss2 = self._assimilate_histogram(
            from_hist_entity_count_per_bin=other2._stored_histogram["histogram"][
                "bin_counts"
            ],
            from_hist_bin_edges=other2._stored_histogram["histogram"]["bin_edges"],
            dest_hist_entity_count_per_bin=new_entity_count_by_bin,
            dest_hist_bin_edges=ideal_bin_edges,
            dest_hist_num_bin=ideal_count_of_bins,
        )

        aggregate_histogram_loss = hist_loss1 + hist_loss2
''', '''        # Generate new histograms
        aggregate_histogram_loss = 0
        for other in (other1, other2):
            other_histogram = other._stored_histogram["histogram"]
            _, hist_loss = self._assimilate_histogram(
                from_hist_entity_count_per_bin=other_histogram["bin_counts"],
                from_hist_bin_edges=other_histogram["bin_edges"],
                dest_hist_entity_count_per_bin=new_entity_count_by_bin,
                dest_hist_bin_edges=ideal_bin_edges,
                dest_hist_num_bin=ideal_count_of_bins,
            )
            aggregate_histogram_loss += hist_loss
''')]
ideal_count = [(N, '''        ideal_count_of_bins = self.min_histogram_bin
        if self.user_set_histogram_bin is not None:
            ideal_count_of_bins = self.user_set_histogram_bin
''', '''        ideal_count_of_bins = (
            self.user_set_histogram_bin
            if self.user_set_histogram_bin is not None
            else self.min_histogram_bin
        )
''')]
bin_methods_dictcomp = [(N, '''        self.histogram_methods = dict()

        # Set ideal''', '''        self.histogram_methods = {
            method: {
                "total_loss": np.float64(0.0),
                "current_loss": np.float64(0.0),
                "histogram": {"bin_counts": None, "bin_edges": None},
            }
            for method in bin_methods
        }

        # Set ideal'''), (N, '''        for method in self.histogram_bin_method_names:
            self.histogram_methods[method] = {
                "total_loss": np.float64(0.0),
                "current_loss": np.float64(0.0),
                "histogram": {"bin_counts": None, "bin_edges": None},
            }

        # calculate the min of the first''', '''        # calculate the min of the first''')]
reformat_loop = [(N, '''        if self.min is not None:
            self.min = np.float64(self.min)
        if self.max is not None:
            self.max = np.float64(self.max)
        if self.sum is not None:
            self.sum = np.float64(self.sum)
        if self.num_zeros is not None:
            self.num_zeros = np.int64(self.num_zeros)
        if self.num_negatives is not None:
            self.num_negatives = np.int64(self.num_negatives)
''', '''        for name, np_type in (
            ("min", np.float64),
            ("max", np.float64),
            ("sum", np.float64),
            ("num_zeros", np.int64),
            ("num_negatives", np.int64),
        ):
            value = getattr(self, name)
            if value is not None:
                setattr(self, name, np_type(value))
''')]
diff_loop = [(N, '''        differences = {
            "min": profiler_utils.find_diff_of_numbers(self.min, other_profile.min),
            "max": profiler_utils.find_diff_of_numbers(self.max, other_profile.max),
            "sum": profiler_utils.find_diff_of_numbers(self.sum, other_profile.sum),
            "mean": profiler_utils.find_diff_of_numbers(self.mean, other_profile.mean),
            "median": profiler_utils.find_diff_of_numbers(
                self.median, other_profile.median
            ),
            "mode": profiler''', '''        differences = {
            stat: profiler_utils.find_diff_of_numbers(
                getattr(self, stat), getattr(other_profile, stat)
            )
            for stat in ("min", "max", "sum", "mean", "median")
        }
        differences.update({
            "mode": profiler'''), (N, '''                other_profile._stored_histogram["histogram"],
            ),
        }
        return differences''', '''                other_profile._stored_histogram["histogram"],
            ),
        })
        return differences''')]
