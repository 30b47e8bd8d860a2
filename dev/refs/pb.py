F = "profilers/profile_builder.py"
null_values_helper = [(F, '''        if options:
            if options.null_values is not None:
                self._null_values = options.null_values.copy()
            if column_index is not None and options.column_null_values is not None:
                self._null_values.update(
                    options.column_null_values.get(column_index, {})
                )
''', '''        if options:
            self._apply_null_options(options, column_index)
'''), (F, '''    def update_column_profilers(
        self, clean_sampled_df''', '''    def _apply_null_options(self, options, column_index):
        configured = options.null_values
        if configured is not None:
            self._null_values = configured.copy()
        per_column = options.column_null_values
        if per_column is None or column_index is None:
            return
        self._null_values.update(per_column.get(column_index, {}))

    def update_column_profilers(
        self, clean_sampled_df''')]
init_early = [(F, '''        if df_series is not None and len(df_series) > 0:
            if not sample_size:
                sample_size = self._get_sample_size(df_series)
            if sample_size < len(df_series):
                warnings.warn(
                    "The data will be profiled with a sample size of {}. "
                    "All statistics will be based on this subsample and "
                    "not the whole dataset.".format(sample_size)
                )

            clean_sampled_df, base_stats = self.clean_data_and_get_base_stats(
                df_series=df_series,
                sample_size=sample_size,
                null_values=self._null_values,
                min_true_samples=self._min_true_samples,
                sample_ids=sample_ids,
            )
            self.update_column_profilers(clean_sampled_df, pool)
            self._update_base_stats(base_stats)
''', '''        if df_series is None or len(df_series) == 0:
            return
        sample_size = sample_size or self._get_sample_size(df_series)
        if len(df_series) > sample_size:
            msg = (
                f"The data will be profiled with a sample size of {sample_size}. "
                "All statistics will be based on this subsample and "
                "not the whole dataset."
            )
            warnings.warn(msg)

        cleaned, stats = self.clean_data_and_get_base_stats(
            df_series,
            sample_size,
            self._null_values,
            self._min_true_samples,
            sample_ids,
        )
        self.update_column_profilers(cleaned, pool)
        self._update_base_stats(stats)
''')]
compilers_loop = [(F, '''        # First run, create the compilers
        if self.profiles is None or len(self.profiles) == 0:
            self.profiles = {
                "data_type_profile": ColumnPrimitiveTypeProfileCompiler(
                    clean_sampled_df, self.options, pool
                ),
                "data_stats_profile": ColumnStatsProfileCompiler(
                    clean_sampled_df, self.options, pool
                ),
            }

            use_data_labeler = True
            if self.options and isinstance(self.options, StructuredOptions):
                use_data_labeler = self.options.data_labeler.is_enabled

            if use_data_labeler:
                self.profiles.update(
                    {
                        "data_label_profile": ColumnDataLabelerCompiler(
                            clean_sampled_df, self.options, pool
                        )
                    }
                )
        else:

            # Profile compilers being updated
            for profile in self.profiles.values():
                profile.update_profile(clean_sampled_df, pool)
''', '''        if self.profiles:
            # Profile compilers being updated
            for compiler in self.profiles.values():
                compiler.update_profile(clean_sampled_df, pool)
            return

        # First run, create the compilers
        self.profiles = {
            "data_type_profile": ColumnPrimitiveTypeProfileCompiler(
                clean_sampled_df, self.options, pool
            ),
            "data_stats_profile": ColumnStatsProfileCompiler(
                clean_sampled_df, self.options, pool
            ),
        }
        if self._labeler_enabled():
            self.profiles["data_label_profile"] = ColumnDataLabelerCompiler(
                clean_sampled_df, self.options, pool
            )

    def _labeler_enabled(self):
        if self.options and isinstance(self.options, StructuredOptions):
            return self.options.data_labeler.is_enabled
        return True
''')]
add_stats_helper = [(F, '''        merged_profile._update_base_stats(
            {
                "sample": self.sample,
                "sample_size": self.sample_size,
                "null_count": self.null_count,
                "null_types": copy.deepcopy(self.null_types_index),
                "min_id": self._min_id,
                "max_id": self._max_id,
            }
        )
        merged_profile._update_base_stats(
            {
                "sample": other.sample,
                "sample_size": other.sample_size,
                "null_count": other.null_count,
                "null_types": copy.deepcopy(other.null_types_index),
                "min_id": other._min_id,
                "max_id": other._max_id,
            }
        )
''', '''        merged_profile._update_base_stats(self._base_stats_snapshot())
        merged_profile._update_base_stats(other._base_stats_snapshot())
'''), (F, '''    def diff(self, other_profile: StructuredColProfiler, options''', '''    def _base_stats_snapshot(self) -> dict:
        """Collect base stats."""
        return {
            "sample": self.sample,
            "sample_size": self.sample_size,
            "null_count": self.null_count,
            "null_types": copy.deepcopy(self.null_types_index),
            "min_id": self._min_id,
            "max_id": self._max_id,
        }

    def diff(self, other_profile: StructuredColProfiler, options''')]
add_stats_loop = [(F, '''        merged_profile._update_base_stats(
            {
                "sample": self.sample,
                "sample_size": self.sample_size,
                "null_count": self.null_count,
                "null_types": copy.deepcopy(self.null_types_index),
                "min_id": self._min_id,
                "max_id": self._max_id,
            }
        )
        merged_profile._update_base_stats(
            {
                "sample": other.sample,
                "sample_size": other.sample_size,
                "null_count": other.null_count,
                "null_types": copy.deepcopy(other.null_types_index),
                "min_id": other._min_id,
                "max_id": other._max_id,
            }
        )
''', '''        for source in (self, other):
            merged_profile._update_base_stats(
                {
                    "sample": source.sample,
                    "sample_size": source.sample_size,
                    "null_count": source.null_count,
                    "null_types": copy.deepcopy(source.null_types_index),
                    "min_id": source._min_id,
                    "max_id": source._max_id,
                }
            )
''')]
add_profiles_items = [(F, '''        for profile_name in self.profiles:
            merged_profile.profiles[profile_name] = (
                self.profiles[profile_name] + other.profiles[profile_name]
            )
        return merged_profile

    def diff(self''', '''        for profile_name, compiler in self.profiles.items():
            merged_profile.profiles[profile_name] = (
                compiler + other.profiles[profile_name]
            )
        return merged_profile

    def diff(self'''), (F, '''        samples = list(dict.fromkeys(self.sample + other.sample))
        rng = rng_utils.get_random_number_generator()
        sample_ids = rng.choice(len(samples), min(len(samples), 5), replace=False)
        merged_profile.sample = [samples[sample_id] for sample_id in sample_ids]
''', '''        unique_samples = list(dict.fromkeys(self.sample + other.sample))
        num_unique = len(unique_samples)
        rng = rng_utils.get_random_number_generator()
        chosen = rng.choice(num_unique, min(num_unique, 5), replace=False)
        merged_samples = []
        for idx in chosen:
            merged_samples.append(unique_samples[idx])
        merged_profile.sample = merged_samples
''')]
add_checks_helper = [(F, '''        if type(other) is not type(self):
            raise TypeError(
                "`{}` and `{}` are not of the same profiler type.".format(
                    type(self).__name__, type(other).__name__
                )
            )
        elif self.name != other.name:
            raise ValueError(
                "Structured profile names are unmatched: {} != {}".format(
                    self.name, other.name
                )
            )
        elif set(self.profiles) != set(other.profiles):  # options check
            raise ValueError(
                "Structured profilers were not setup with the same"
                " options, hence they do not calculate the same "
                "profiles and cannot be added together."
            )
''', '''        self._check_mergeable(other)
'''), (F, '''    def __add__(self, other: StructuredColProfiler) -> StructuredColProfiler:''', '''    def _check_mergeable(self, other) -> None:
        if type(self) is not type(other):
            raise TypeError(
                f"`{type(self).__name__}` and `{type(other).__name__}` are not of"
                " the same profiler type."
            )
        if self.name != other.name:
            raise ValueError(
                f"Structured profile names are unmatched: {self.name} != {other.name}"
            )
        if set(self.profiles) == set(other.profiles):
            return
        raise ValueError(
            "Structured profilers were not setup with the same"
            " options, hence they do not calculate the same "
            "profiles and cannot be added together."
        )

    def __add__(self, other: StructuredColProfiler) -> StructuredColProfiler:''')]
diff_order = [(F, '''        profile = OrderedDict()
        if (
            "data_label_profile" not in self.profiles
            or "data_label_profile" not in other_profile.profiles
        ):
            dict_order.remove("data_label")
        for key in dict_order:
            try:
                profile[key] = unordered_profile[key]
            except KeyError:
                profile[key] = None

        return profile
''', '''        both_labeled = (
            "data_label_profile" in self.profiles
            and "data_label_profile" in other_profile.profiles
        )
        if not both_labeled:
            dict_order.remove("data_label")
        profile = OrderedDict()
        for key in dict_order:
            profile[key] = unordered_profile.get(key)

        return profile
''')]
diff_loop = [(F, '''        unordered_profile: dict = dict()
        for key in self.profiles:
            if key in other_profile.profiles:
                comp_diff = self.profiles[key].diff(
                    other_profile.profiles[key], options=options
                )
                unordered_profile = profiler_utils.recursive_dict_update(
                    unordered_profile, comp_diff
                )

        name = self.name
        if isinstance(self.name, np.integer):
            name = int(name)  # type: ignore

        unordered_profile.update(
            {
                "column_name": name,
            }
        )
''', '''        unordered_profile: dict = {}
        for key, compiler in self.profiles.items():
            if key not in other_profile.profiles:
                continue
            unordered_profile = profiler_utils.recursive_dict_update(
                unordered_profile,
                compiler.diff(other_profile.profiles[key], options=options),
            )

        name = int(self.name) if isinstance(self.name, np.integer) else self.name
        unordered_profile["column_name"] = name
''')]
load_elif = [(F, '''            if attr == "profiles":
                for profile_key, profile_value in value.items():
                    value[profile_key] = load_compiler(profile_value, config)
            if attr == "options" and value is not None:
                value = load_option(value, config)
            if attr == "_null_values":
                value = {
                    k: (re.RegexFlag(v) if v != 0 else 0) for k, v in value.items()
                }
            if attr == "null_types_index":
                value = {k: set(v) for k, v in value.items()}
            setattr(profile, attr, value)
''', '''            if attr == "profiles":
                for profile_key in value:
                    value[profile_key] = load_compiler(value[profile_key], config)
            elif attr == "options":
                if value is not None:
                    value = load_option(value, config)
            elif attr == "_null_values":
                value = {
                    k: (0 if v == 0 else re.RegexFlag(v)) for k, v in value.items()
                }
            elif attr == "null_types_index":
                value = {k: set(v) for k, v in value.items()}
            setattr(profile, attr, value)
''')]
base_stats_locals = [(F, '''        self.sample_size += base_stats["sample_size"]
        self._last_batch_size = base_stats["sample_size"]
        self.sample = base_stats["sample"]
        self.null_count += base_stats["null_count"]
        if self.sample_size:
            self.null_ratio = self.null_count / self.sample_size
        self.null_types = profiler_utils._combine_unique_sets(
            self.null_types, list(base_stats["null_types"].keys())
        )

        base_min: int = base_stats["min_id"]
        base_max: int = base_stats["max_id"]
        base_nti = base_stats["null_types"]
''', '''        batch_size = base_stats["sample_size"]
        base_nti = base_stats["null_types"]
        base_min: int = base_stats["min_id"]
        base_max: int = base_stats["max_id"]

        self.sample = base_stats["sample"]
        self.null_count = self.null_count + base_stats["null_count"]
        self.sample_size = self.sample_size + batch_size
        self._last_batch_size = batch_size
        if self.sample_size != 0:
            self.null_ratio = self.null_count / self.sample_size
        self.null_types = profiler_utils._combine_unique_sets(
            self.null_types, list(base_nti)
        )
''')]
base_stats_minmax = [(F, '''        # Store/compare min/max id with current
        if self._min_id is None:
            self._min_id = base_min
        elif base_min is not None:
            self._min_id = min(self._min_id, base_min)
        if self._max_id is None:
            self._max_id = base_max
        elif base_max is not None:
            self._max_id = max(self._max_id, base_max)

        # Update null row indices
        for null_type, null_rows in base_nti.items():
            if type(null_rows) is list:
                null_rows.sort()
            self.null_types_index.setdefault(null_type, set()).update(null_rows)
''', '''        self._track_id_range(base_min, base_max)

        # Update null row indices
        for null_type, null_rows in base_nti.items():
            if type(null_rows) is list:
                null_rows.sort()
            if null_type not in self.null_types_index:
                self.null_types_index[null_type] = set()
            self.null_types_index[null_type].update(null_rows)

    def _track_id_range(self, low, high):
        if low is not None:
            self._min_id = low if self._min_id is None else min(self._min_id, low)
        if high is not None:
            self._max_id = high if self._max_id is None else max(self._max_id, high)
''')]
base_stats_shift = [(F, '''            self._index_shift = cast(int, self._max_id) + 1
            base_min = base_min + self._index_shift
            base_max = base_max + self._index_shift

            base_nti = {
                k: {x + self._index_shift for x in v}
                for k, v in base_stats["null_types"].items()
            }
''', '''            shift = cast(int, self._max_id) + 1
            self._index_shift = shift
            base_min += shift
            base_max += shift

            shifted = {}
            for k, v in base_nti.items():
                shifted[k] = {x + shift for x in v}
            base_nti = shifted
''')]
sample_size_ternary = [(F, '''        len_df = len(df_series)
        if len_df <= self._min_sample_size:
            return int(len_df)
        return max(int(self._sampling_ratio * len_df), self._min_sample_size)
''', '''        num_rows = len(df_series)
        return (
            max(int(num_rows * self._sampling_ratio), self._min_sample_size)
            if num_rows > self._min_sample_size
            else int(num_rows)
        )
''')]
clean_index_helper = [(F, '''        # Record min and max index values if index is int
        is_index_all_ints = True
        try:
            min_id = min(df_series.index)
            max_id = max(df_series.index)
            if not (isinstance(min_id, int) and isinstance(max_id, int)):
                is_index_all_ints = False
        except TypeError:
            is_index_all_ints = False

        if not is_index_all_ints:
            min_id = max_id = None
            warnings.warn(''', '''        # Record min and max index values if index is int
        try:
            min_id = min(df_series.index)
            max_id = max(df_series.index)
            is_index_all_ints = isinstance(min_id, int) and isinstance(max_id, int)
        except TypeError:
            is_index_all_ints = False

        if not is_index_all_ints:
            min_id = None
            max_id = None
            warnings.warn(''')]
clean_chunks = [(F, '''        if sample_ids is None:
            sample_ind_generator = profiler_utils.shuffle_in_chunks(
                len_df, chunk_size=sample_size
            )
        else:
            sample_ind_generator = profiler_utils.partition(
                sample_ids[0], chunk_size=sample_size
            )
''', '''        if sample_ids is not None:
            sample_ind_generator = profiler_utils.partition(
                sample_ids[0], chunk_size=sample_size
            )
        else:
            sample_ind_generator = profiler_utils.shuffle_in_chunks(
                len_df, chunk_size=sample_size
            )
'''), (F, '''            for index, cell in df_subset[matches].items():
                na_columns.setdefault(cell, list()).append(index)

            # Ensure minimum number of true samples met
            # and if total_sample_size >= sample size, exit
            if (
                len(true_sample_set) >= min_true_samples
                and total_sample_size >= sample_size
            ):
                break
''', '''            null_cells = df_subset[matches]
            for index, cell in null_cells.items():
                if cell not in na_columns:
                    na_columns[cell] = []
                na_columns[cell].append(index)

            enough_true = min_true_samples <= len(true_sample_set)
            enough_total = sample_size <= total_sample_size
            if enough_true and enough_total:
                break
'''), (F, '''        true_sample_list = (
            sorted(true_sample_set)
            if min_true_samples > 0 or sample_ids is None
            else list(true_sample_set)
        )
''', '''        if sample_ids is None or min_true_samples > 0:
            true_sample_list = sorted(true_sample_set)
        else:
            true_sample_list = list(true_sample_set)
''')]
clean_stats_dict = [(F, '''        base_stats = {
            "sample_size": total_sample_size,
            "null_count": total_na,
            "null_ratio": total_na / total_sample_size,
            "null_types": na_columns,
            "sample": rng.choice(
                list(df_series.values), (min(len(df_series), 5),), replace=False
            ).tolist(),
            "min_id": min_id,
            "max_id": max_id,
        }

        return df_series, base_stats
''', '''        num_shown = min(len(df_series), 5)
        shown = rng.choice(list(df_series.values), (num_shown,), replace=False)
        base_stats = dict(
            sample_size=total_sample_size,
            null_count=total_na,
            null_ratio=total_na / total_sample_size,
            null_types=na_columns,
            sample=shown.tolist(),
            min_id=min_id,
            max_id=max_id,
        )
        return df_series, base_stats
''')]
base_add_ternary = [(F, '''        merged_profile.encoding = self.encoding
        if self.encoding != other.encoding:
            merged_profile.encoding = "multiple files"

        merged_profile.file_type = self.file_type
        if self.file_type != other.file_type:
            merged_profile.file_type = "multiple files"

        merged_profile.total_samples = self.total_samples + other.total_samples

        merged_profile.times = profiler_utils.add_nested_dictionaries(
            self.times, other.times
        )
''', '''        merged_profile.times = profiler_utils.add_nested_dictionaries(
            self.times, other.times
        )
        merged_profile.total_samples = other.total_samples + self.total_samples
        same_encoding = self.encoding == other.encoding
        merged_profile.encoding = self.encoding if same_encoding else "multiple files"
        same_type = self.file_type == other.file_type
        merged_profile.file_type = self.file_type if same_type else "multiple files"
''')]
base_add_setattr = [(F, '''        merged_profile.encoding = self.encoding
        if self.encoding != other.encoding:
            merged_profile.encoding = "multiple files"

        merged_profile.file_type = self.file_type
        if self.file_type != other.file_type:
            merged_profile.file_type = "multiple files"
''', '''        for attr in ("encoding", "file_type"):
            value = getattr(self, attr)
            if value != getattr(other, attr):
                value = "multiple files"
            setattr(merged_profile, attr, value)
''')]
base_diff_plain = [(F, '''        diff_profile = OrderedDict(
            [
                (
                    "global_stats",
                    {
                        "file_type": profiler_utils.find_diff_of_strings_and_bools(
                            self.file_type, other_profile.file_type
                        ),
                        "encoding": profiler_utils.find_diff_of_strings_and_bools(
                            self.encoding, other_profile.encoding
                        ),
                    },
                )
            ]
        )

        return diff_profile
''', '''        compare = profiler_utils.find_diff_of_strings_and_bools
        global_stats = {
            "file_type": compare(self.file_type, other_profile.file_type),
            "encoding": compare(self.encoding, other_profile.encoding),
        }
        diff_profile = OrderedDict()
        diff_profile["global_stats"] = global_stats
        return diff_profile
''')]
base_load_reorder = [(F, '''        for attr, value in data.items():
            if "times" == attr:
                value = defaultdict(float, value)
            if "_profile" == attr:
                for idx, profile in enumerate(value):
                    value[idx] = load_structured_col_profiler(profile, config)
            if "options" == attr:
                continue

            setattr(profiler, attr, value)
        return profiler
''', '''        for attr, value in data.items():
            if attr == "options":
                continue
            if attr == "times":
                value = defaultdict(float, value)
            elif attr == "_profile":
                for idx, profile in enumerate(value):
                    value[idx] = load_structured_col_profiler(profile, config)

            setattr(profiler, attr, value)
        return profiler
''')]
