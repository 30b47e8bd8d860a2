C = "profilers/categorical_column_profile.py"
profile_literal = [(C, '''            statistics=dict(
                [
                    ("unique_count", self.unique_count),
                    ("unique_ratio", self.unique_ratio),
                ]
            ),
            times=self.times,
        )
        if self.is_match:
            profile["statistics"]["categories"] = self.categories
            profile["statistics"]["gini_impurity"] = self.gini_impurity
            profile["statistics"]["unalikeability"] = self.unalikeability
            profile["statistics"]["categorical_count"] = dict(
                sorted(self._categories.items(), key=itemgetter(1), reverse=True)[
                    : self._top_k_categories
                ]
            )
        return profile
''', '''            statistics={
                "unique_count": self.unique_count,
                "unique_ratio": self.unique_ratio,
            },
            times=self.times,
        )
        if not self.is_match:
            return profile
        by_count = sorted(self._categories.items(), key=itemgetter(1), reverse=True)
        profile["statistics"].update(
            categories=self.categories,
            gini_impurity=self.gini_impurity,
            unalikeability=self.unalikeability,
            categorical_count=dict(by_count[: self._top_k_categories]),
        )
        return profile
''')]
is_match_returns = [(C, '''        is_match = False
        unique = len(self._categories)
        if unique <= self._MAXIMUM_UNIQUE_VALUES_TO_CLASSIFY_AS_CATEGORICAL:
            is_match = True
        elif (
            self.sample_size
            and self.unique_ratio <= self._CATEGORICAL_THRESHOLD_DEFAULT
        ):
            is_match = True
        return is_match
''', '''        if (
            len(self._categories)
            <= self._MAXIMUM_UNIQUE_VALUES_TO_CLASSIFY_AS_CATEGORICAL
        ):
            return True
        return bool(
            self.sample_size
            and self.unique_ratio <= self._CATEGORICAL_THRESHOLD_DEFAULT
        )
''')]
stop_guard = [(C, '''        if (
            self.max_sample_size_to_check_stop_condition is not None
            and self.stop_condition_unique_value_ratio is not None
            and sample_size >= self.max_sample_size_to_check_stop_condition
            and unqiue_ratio >= self.stop_condition_unique_value_ratio
        ):
            return True
        return False
''', '''        max_size = self.max_sample_size_to_check_stop_condition
        ratio = self.stop_condition_unique_value_ratio
        if max_size is None or ratio is None:
            return False
        return sample_size >= max_size and unqiue_ratio >= ratio
''')]
psi_setdefault = [(C, '''        for iter_key in super_set_categories:
            for iter_dictionary in [self_cat_count, other_cat_count]:
                try:
                    iter_dictionary[iter_key] = iter_dictionary[iter_key]
                except KeyError:
                    iter_dictionary[iter_key] = 0
''', '''        for iter_key in super_set_categories:
            self_cat_count.setdefault(iter_key, 0)
            other_cat_count.setdefault(iter_key, 0)
''')]
merge_filter = [(C, '''        total_samples = len1 + len2
        for cat in list(categories):
            if categories[cat] < (total_samples / max_num_heavy_hitters):
                categories.pop(cat)
''', '''        threshold = (len1 + len2) / max_num_heavy_hitters
        for cat in [cat for cat, count in categories.items() if count < threshold]:
            del categories[cat]
''')]
merge_loops = [(C, '''        for k in (x for x in heavy_hitter_dict1 if x not in heavy_hitter_dict2):
            heavy_hitter_dict2[k] = cms2.get_estimate(k)
        for k in (x for x in heavy_hitter_dict2 if x not in heavy_hitter_dict1):
            heavy_hitter_dict1[k] = cms1.get_estimate(k)
''', '''        for k in heavy_hitter_dict1:
            if k not in heavy_hitter_dict2:
                heavy_hitter_dict2[k] = cms2.get_estimate(k)
        for k in heavy_hitter_dict2:
            if k not in heavy_hitter_dict1:
                heavy_hitter_dict1[k] = cms1.get_estimate(k)
''')]
cms_noenum = [(C, '''        for i, value in enumerate(df_series):
            cms.update(value)
            i_count = cms.get_estimate(value)
            i_total_count = i_count + self.cms.get_estimate(value)
            # approximate heavy-hitters
            if i_count >= int(len_df / self._cms_max_num_heavy_hitters):
''', '''        batch_threshold = int(len_df / self._cms_max_num_heavy_hitters)
        for value in df_series:
            cms.update(value)
            i_count = cms.get_estimate(value)
            i_total_count = i_count + self.cms.get_estimate(value)
            # approximate heavy-hitters
            if i_count >= batch_threshold:
''')]
update_split = [(C, '''        else:
            category_count = self._get_categories_full(df_series)
            self._categories = profiler_utils.add_nested_dictionaries(
                self._categories, category_count
            )
            self._update_stop_condition(df_series)
            if self._stop_condition_is_met:
                self._categories = {}
''', '''        else:
            self._update_categories_full(df_series)
'''), (C, '''    def _update_helper(self, df_series_clean: Series, profile: dict) -> None:
        """
        Update col profile''', '''    def _update_categories_full(self, df_series):
        self._categories = profiler_utils.add_nested_dictionaries(
            self._categories, self._get_categories_full(df_series)
        )
        self._update_stop_condition(df_series)
        if self._stop_condition_is_met:
            self._categories = {}

    def _update_helper(self, df_series_clean: Series, profile: dict) -> None:
        """
        Update col profile''')]
update_early_return = [(C, '''        if self.cms is not None:
            if self._cms_max_num_heavy_hitters is None:
                raise''', '''        if self.cms is None:
            category_count = self._get_categories_full(df_series)
            self._categories = profiler_utils.add_nested_dictionaries(
                self._categories, category_count
            )
            self._update_stop_condition(df_series)
            if self._stop_condition_is_met:
                self._categories = {}
        else:
            if self._cms_max_num_heavy_hitters is None:
                raise'''), (C, '''                self.sample_size,
                self._cms_max_num_heavy_hitters,
            )
        else:
            category_count = self._get_categories_full(df_series)
            self._categories = profiler_utils.add_nested_dictionaries(
                self._categories, category_count
            )
            self._update_stop_condition(df_series)
            if self._stop_condition_is_met:
                self._categories = {}
''', '''                self.sample_size,
                self._cms_max_num_heavy_hitters,
            )
''')]
ratio_order = [(C, '''        if self.sample_size:
            return len(self.categories) / self.sample_size
        return 0
''', '''        if not self.sample_size:
            return 0
        return self.unique_count / self.sample_size
''')]
