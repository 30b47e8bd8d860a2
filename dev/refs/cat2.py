C = "profilers/categorical_column_profile.py"
gini_sum = [(C, '''        gini_sum: float = 0
        for i in self._categories:
            gini_sum += (self._categories[i] / self.sample_size) * (
                1 - (self._categories[i] / self.sample_size)
            )
        return gini_sum
''', '''        gini_sum: float = 0
        for count in self._categories.values():
            probability = count / self.sample_size
            gini_sum += probability * (1 - probability)
        return gini_sum
''')]
gini_gen = [(C, '''        gini_sum: float = 0
        for i in self._categories:
            gini_sum += (self._categories[i] / self.sample_size) * (
                1 - (self._categories[i] / self.sample_size)
            )
        return gini_sum
''', '''        ratios = [count / self.sample_size for count in self._categories.values()]
        return sum(ratio * (1 - ratio) for ratio in ratios)
''')]
unalike = [(C, '''        unalike_sum: int = 0
        for category in self._categories:
            unalike_sum += (
                self.sample_size - self._categories[category]
            ) * self._categories[category]
        unalike: float = unalike_sum / (self.sample_size**2 - self.sample_size)
        return unalike
''', '''        n = self.sample_size
        unalike_sum = sum(count * (n - count) for count in self._categories.values())
        return unalike_sum / (n * (n - 1))
''')]
diff_stats_local = [(C, '''            differences["statistics"][
                "categories"
            ] = profiler_utils.find_diff_of_lists_and_sets(
                self.categories, other_profile.categories
            )
            differences["statistics"][
                "gini_impurity"
            ] = profiler_utils.find_diff_of_numbers(
                self.gini_impurity, other_profile.gini_impurity
            )
            differences["statistics"][
                "unalikeability"
            ] = profiler_utils.find_diff_of_numbers(
                self.unalikeability, other_profile.unalikeability
            )
''', '''            stats = differences["statistics"]
            stats["categories"] = profiler_utils.find_diff_of_lists_and_sets(
                self.categories, other_profile.categories
            )
            for name in ("gini_impurity", "unalikeability"):
                stats[name] = profiler_utils.find_diff_of_numbers(
                    getattr(self, name), getattr(other_profile, name)
                )
''')]
merge_stop_helper = [(C, '''                profile1_product = self.sample_size * self.unique_ratio
                profile2_product = other.sample_size * other.unique_ratio
                if profile1_product < profile2_product:
                    merged_profile.max_sample_size_to_check_stop_condition = (
                        self.max_sample_size_to_check_stop_condition
                    )
                    merged_profile.stop_condition_unique_value_ratio = (
                        self.stop_condition_unique_value_ratio
                    )
                else:
                    merged_profile.stop_condition_unique_value_ratio = (
                        other.stop_condition_unique_value_ratio
                    )
                    merged_profile.max_sample_size_to_check_stop_condition = (
                        other.max_sample_size_to_check_stop_condition
                    )
''', '''                if (
                    self.sample_size * self.unique_ratio
                    < other.sample_size * other.unique_ratio
                ):
                    source = self
                else:
                    source = other
                merged_profile.max_sample_size_to_check_stop_condition = (
                    source.max_sample_size_to_check_stop_condition
                )
                merged_profile.stop_condition_unique_value_ratio = (
                    source.stop_condition_unique_value_ratio
                )
''')]
merge_larger = [(C, '''                if self.sample_size > other.sample_size:
                    merged_profile._stopped_at_unique_ratio = self.unique_ratio
                    merged_profile._stopped_at_unique_count = self.unique_count
                    merged_profile.sample_size = self.sample_size
                else:
                    merged_profile._stopped_at_unique_ratio = other.unique_ratio
                    merged_profile._stopped_at_unique_count = other.unique_count
                    merged_profile.sample_size = other.sample_size
''', '''                larger = self if self.sample_size > other.sample_size else other
                merged_profile._stopped_at_unique_ratio = larger.unique_ratio
                merged_profile._stopped_at_unique_count = larger.unique_count
                merged_profile.sample_size = larger.sample_size
''')]
merge_raise_first = [(C, '''        if self.cms and other.cms:

            assert''', '''        if bool(self.cms) != bool(other.cms):
            raise Exception(
                "Unable to add two profiles: One is using count min sketch"
                "and the other is using full."
            )

        if self.cms and other.cms:

            assert'''), (C, '''        elif not self.cms and not other.cms:
            # If both''', '''        else:
            # If both'''), (C, '''                merged_profile._categories = {}
                merged_profile._stop_condition_is_met = True

        else:
            raise Exception(
                "Unable to add two profiles: One is using count min sketch"
                "and the other is using full."
            )

        return merged_profile
''', '''                merged_profile._categories = {}
                merged_profile._stop_condition_is_met = True

        return merged_profile
''')]
psi_items = [(C, '''            for iter_key in self_cat_count.keys():
                percent_self = self_cat_count[iter_key] / self.sample_size
''', '''            for iter_key, self_count in self_cat_count.items():
                percent_self = self_count / self.sample_size
''')]
init_cms_helper = [(C, '''            if options.cms:
                self._cms_max_num_heavy_hitters = options.cms_max_num_heavy_hitters
                self.cms_num_hashes = datasketches.count_min_sketch.suggest_num_hashes(
                    options.cms_confidence
                )
                self.cms_num_buckets = (
                    datasketches.count_min_sketch.suggest_num_buckets(
                        options.cms_relative_error
                    )
                )
                self.cms = datasketches.count_min_sketch(
                    self.cms_num_hashes, self.cms_num_buckets
                )
''', '''            if options.cms:
                self._init_cms(options)

    def _init_cms(self, options):
        sketch = datasketches.count_min_sketch
        self._cms_max_num_heavy_hitters = options.cms_max_num_heavy_hitters
        self.cms_num_hashes = sketch.suggest_num_hashes(options.cms_confidence)
        self.cms_num_buckets = sketch.suggest_num_buckets(options.cms_relative_error)
        self.cms = sketch(self.cms_num_hashes, self.cms_num_buckets)
''')]
