"""realistic breakages, NAME = (property, [(file, old, new)]); no demonstration, used to measure recall"""
N = "profilers/numerical_column_stats.py"
C = "profilers/categorical_column_profile.py"
DT = "profilers/datetime_column_profile.py"
B = "profilers/base_column_profilers.py"
CC = "profilers/column_profile_compilers.py"
P = "profilers/profile_builder.py"
O = "profilers/profiler_options.py"
CSV = "data_readers/csv_data.py"
V = "validators/base_validators.py"
RX = "labelers/regex_model.py"

m01_min_truthy = ("M01", [(N, """            if other1.min is not None and other2.min is not None:
                self.min = min(other1.min, other2.min)
            elif other2.min is None:
                self.min = other1.min
            else:
                self.min = other2.min
""", """            candidates = [m for m in (other1.min, other2.min) if m]
            self.min = min(candidates) if candidates else None
""")])
m01_bins_smaller = ("M01", [(N, """            self.user_set_histogram_bin = max(
                other1.user_set_histogram_bin, other2.user_set_histogram_bin
            )
""", """            self.user_set_histogram_bin = (
                other1.user_set_histogram_bin or other2.user_set_histogram_bin
            )
""")])
m01_edges = ("M01", [(N, """            float(self.min)
            if self.min is not None
            else min(""", """            float(self.min)
            if self.min
            else min(""")])
m01_hist_loss = ("M01", [(N, "        aggregate_histogram_loss = hist_loss1 + hist_loss2\n", "        aggregate_histogram_loss = max(hist_loss1, hist_loss2)\n")])
m01_one_sided_hist = ("M01", [(N, "                other = other2 if other2._has_histogram else other1\n", "                other = other2 if other2.match_count else other1\n")])
m01_bias = ("M01", [(N, "        if not other1.bias_correction or not other2.bias_correction:\n            self.bias_correction = False\n", "        if not (other1.bias_correction or other2.bias_correction):\n            self.bias_correction = False\n")])
m01_median = ("M01", [(N, """        self._median_is_enabled = (
            other1._median_is_enabled and other2._median_is_enabled
        )
""", """        self._median_is_enabled = (
            other1._median_is_enabled or other2._median_is_enabled
        )
""")])
m02_stop_cond = ("M02", [(C, "            if not (self._stop_condition_is_met or other._stop_condition_is_met):\n", "            if not (self._stop_condition_is_met and other._stop_condition_is_met):\n")])
m02_heavy = ("M02", [(C, """            cms_max_num_heavy_hitters: int = min(
""", """            cms_max_num_heavy_hitters: int = max(
""")])
m02_stopped_bigger = ("M02", [(C, """                    merged_profile._stopped_at_unique_count = other.unique_count
                    merged_profile.sample_size = other.sample_size
""", """                    merged_profile._stopped_at_unique_count = self.unique_count
                    merged_profile.sample_size = other.sample_size
""")])
m02_dt_formats = ("M02", [(DT, """        merged_profile.date_formats = profiler_utils._combine_unique_sets(
            self.date_formats, other.date_formats
        )
        return merged_profile
""", """        if self.date_formats:
            merged_profile.date_formats = list(self.date_formats)
        else:
            merged_profile.date_formats = list(other.date_formats)
        return merged_profile
""")])
m02_dt_cmp = ("M02", [(DT, "        elif other._dt_obj_max is None or self._dt_obj_max > other._dt_obj_max:\n", "        elif other._dt_obj_max is None or self.max > other.max:\n")])
m02_compiler_skip = ("M02", [(CC, """        for profile_name in self._profiles:
            merged_profile_compiler._profiles[profile_name] = (
                self._profiles[profile_name] + other._profiles[profile_name]
            )
""", """        for profile_name in self._profiles:
            if not other._profiles[profile_name].sample_size:
                continue
            merged_profile_compiler._profiles[profile_name] = (
                self._profiles[profile_name] + other._profiles[profile_name]
            )
""")])
m02_times = ("M02", [(B, "        self.times = profiler_utils.add_nested_dictionaries(other1.times, other2.times)\n", "        self.times = defaultdict(float, {**other1.times, **other2.times})\n")])
m02_samples = ("M02", [(P, "        samples = list(dict.fromkeys(self.sample + other.sample))\n", "        samples = list(dict.fromkeys(self.sample or other.sample))\n")])
m02_null_double = ("M02", [(P, """                "null_types": copy.deepcopy(other.null_types_index),
                "min_id": other._min_id,
                "max_id": other._max_id,
            }
        )
        samples""", """                "null_types": copy.deepcopy(other.null_types_index),
                "min_id": self._min_id,
                "max_id": self._max_id,
            }
        )
        samples""")])
m03_hll_once = ("M03", [(P, """                    merged_profile.hashed_row_object.merge(self.hashed_row_object)
                    merged_profile.hashed_row_object.merge(other.hashed_row_object)
""", """                    if len(self.hashed_row_object) >= len(other.hashed_row_object):
                        merged_profile.hashed_row_object.merge(self.hashed_row_object)
                    else:
                        merged_profile.hashed_row_object.merge(other.hashed_row_object)
""")])
m03_pair_idx = ("M03", [(P, """            other_idx = self_to_other_idx[idx]
            merged_profile._profile.append(""", """            other_idx = self_to_other_idx.get(idx, idx)
            if self._profile[idx].name == other._profile[idx].name:
                other_idx = idx
            merged_profile._profile.append(""")])
m03_pair_pos = ("M03", [(P, """                self._profile[idx] + other._profile[other_idx]
            )

        # schemas""", """                self._profile[idx] + other._profile[idx]
            )

        # schemas""")])
m03_null_counts = ("M03", [(P, """            merged_profile.row_is_null_count = (
                self.row_is_null_count + other.row_is_null_count
            )

            if (""", """            merged_profile.row_is_null_count = max(
                self.row_is_null_count, other.row_is_null_count
            )

            if (""")])
m03_chi2 = ("M03", [(P, "                merged_profile.chi2_matrix = merged_profile._update_chi2()\n", "                merged_profile.chi2_matrix = chi2_mat1 + chi2_mat2\n")])
m03_chi2_n = ("M03", [(P, "            n2 = other.total_samples - other.row_is_null_count\n            if n1 == 0:\n                merged_profile.chi2", "            n2 = other.total_samples - self.row_is_null_count\n            if n1 == 0:\n                merged_profile.chi2")])
m04_schema_alias = ("M04", [(P, "        merged_profile._col_name_to_idx = copy.deepcopy(self._col_name_to_idx)\n", "        merged_profile._col_name_to_idx = self._col_name_to_idx\n")])
m04_cat_shared = ("M04", [(C, """                merged_profile._categories = profiler_utils.add_nested_dictionaries(
                    self._categories, other._categories
                )
""", """                if not other._categories:
                    merged_profile._categories = self._categories
                else:
                    merged_profile._categories = profiler_utils.add_nested_dictionaries(
                        self._categories, other._categories
                    )
""")])
m04_psi_inplace = ("M04", [(C, """            cat_count2 = dict(
                sorted(
                    other_profile._categories.items(), key=itemgetter(1), reverse=True
                )
            )
""", """            cat_count2 = other_profile._categories
""")])
m05_schema_late = ("M05", [(P, """        if 0 < len_schema1 != len_schema2 > 0:
""", """        if 0 < len_schema1 < len_schema2:
""")])
m05_set_subset = ("M05", [(CC, "        elif set(self._profiles) != set(other._profiles):  # options check\n", "        elif not set(self._profiles) <= set(other._profiles):  # options check\n")])
u02_dt_break = ("U02", [(DT, "                if tmp_max_value_obj > max_value_obj:\n                    max_value = df_series[~null_date_mask].iloc[max_idx]\n", "                if tmp_max_value_obj > max_value_obj:\n                    max_value = df_series.iloc[max_idx]\n")])
u03_hll_batch = ("U03", [(P, "                for batch_ind in range(len(data) // batch_size + 1):\n", "                for batch_ind in range(max(1, len(data) // batch_size)):\n")])
u03_shift = ("U03", [(P, """                    if shift is None:
                        # Shift""", """                    if not self._profile[0]._index_shift:
                        # Shift""")])
u03_pool_return = ("U03", [(CC, """                if returned_profile is not None:
                    self._profiles[profile_type] = returned_profile
            except Exception:  # Attempt again as a single process
                self._profiles[profile_type].thread_safe = False
                single_process_list.append(profile_type)
""", """                if returned_profile is not None:
                    self._profiles[profile_type] = returned_profile
            except Exception:  # Attempt again as a single process
                self._profiles[profile_type].thread_safe = False
""")])
u03_first_col = ("U03", [(P, """                if first_col_flag:
                    null_rows = null_row_indices
                    null_in_row_count = null_row_indices
                    first_col_flag = False
""", """                if not null_rows:
                    null_rows = null_row_indices
                    null_in_row_count = null_in_row_count.union(null_row_indices)
""")])
u03_empty_return = ("U03", [(P, """        # set file properties since data will be processed
        if encoding is not None:
            self.encoding = encoding
""", """        # set file properties since data will be processed
        if encoding is not None and self.encoding is None:
            self.encoding = encoding
""")])
u04_shift = ("U04", [(P, """            self._index_shift = cast(int, self._max_id) + 1
""", """            self._index_shift = cast(int, self._max_id) - cast(int, self._min_id) + 1
""")])
u04_min_id = ("U04", [(P, """        if self._max_id is None:
            self._max_id = base_max
        elif base_max is not None:
            self._max_id = max(self._max_id, base_max)
""", """        if not self._max_id or (base_max and base_max > self._max_id):
            self._max_id = base_max
""")])
u04_regex = ("U04", [(P, '        regex = f"^(?:{(query)})$"\n', '        regex = f"^{query}$"\n')])
u04_break = ("U04", [(P, """                len(true_sample_set) >= min_true_samples
                and total_sample_size >= sample_size
""", """                len(true_sample_set) >= min_true_samples
                or total_sample_size >= sample_size
""")])
u04_null_ratio = ("U04", [(P, """        if self.sample_size:
            self.null_ratio = self.null_count / self.sample_size
        self.null_types""", """        if base_stats["sample_size"]:
            self.null_ratio = base_stats["null_count"] / base_stats["sample_size"]
        self.null_types""")])
u04_replace_idx = ("U04", [(P, """            self.null_types_index.setdefault(null_type, set()).update(null_rows)
""", """            self.null_types_index[null_type] = set(null_rows)
""")])
d01_gini = ("D01", [(C, """                self.gini_impurity, other_profile.gini_impurity
            )
            differences""", """                self.gini_impurity, other_profile.unalikeability
            )
            differences""")])
d01_psi = ("D01", [(C, "                percent_other = other_cat_count[iter_key] / other_profile.sample_size\n", "                percent_other = other_cat_count[iter_key] / self.sample_size\n")])
d01_dt = ("D01", [(DT, """                self._dt_obj_max, other_profile._dt_obj_max
            ),
            "format\"""", """                other_profile._dt_obj_max, self._dt_obj_max
            ),
            "format\"""")])
d02_pair = ("D02", [(P, "        if self_profile_schema == other_profile_schema:\n", "        if set(self_profile_schema) == set(other_profile_schema):\n")])
d02_dup = ("D02", [(P, """                    self._get_duplicate_row_count(),
                    other_profile._get_duplicate_row_count(),
""", """                    self._get_duplicate_row_count(),
                    self._get_duplicate_row_count(),
""")])
d01_null_types = ("D01", [(P, """                "null_ratio": profiler_utils.find_diff_of_numbers(
                    self.null_ratio, other_profile.null_ratio
                ),
""", """                "null_ratio": profiler_utils.find_diff_of_numbers(
                    self.null_ratio or 0, other_profile.null_ratio or 0
                ),
""")])
s02_dt_swap = ("S02", [(DT, "            profile._dt_obj_max = pd.Timestamp(profile._dt_obj_max)\n", "            profile._dt_obj_max = pd.Timestamp(profile.max)\n")])
s02_order = ("S02", [(CC, """                value = OrderedDict(
                    {
                        k.type: value[k.type]
                        for k in compiler._profilers
                        if k.type in value
                    }
                )
""", """                value = OrderedDict(sorted(value.items()))
""")])
s02_cat = ("S02", [(C, "        setattr(profile, \"_categories\", defaultdict(int, value))\n", "        setattr(profile, \"_categories\", value)\n")])
s02_opt = ("S02", [(O, """            if isinstance(value, dict) and "class" in value:
                value = load_option(value, config)
            setattr(option, attr, value)
""", """            if isinstance(value, dict) and "class" in value:
                value = load_option(value, config)
            if value is not None:
                setattr(option, attr, value)
""")])
o03_wild = ("O03", [(O, """                        class_option._set_helper(
                            {option: options[option]},
                            variable_path=option_variable_path,
                        )
            else:""", """                        class_option._set_helper(
                            {option: options[option]},
                            variable_path=option_variable_path,
                        )
                        break
            else:""")])
o03_leaf = ("O03", [(O, """                elif len(option_list) > 1:
                    raise AttributeError(
                        "type object '{}' has no attribute '{}'".format(
                            option_variable_path, option_list[1]
                        )
                    )
                else:
""", """                else:
""")])
o02_validate = ("O02", [(O, """        errors = self._validate_helper()
        if raise_error and errors:
            raise ValueError("\\n".join(errors))
""", """        errors = self._validate_helper()
        if raise_error and errors:
            raise ValueError(errors[0])
""")])
r01_dtype = ("R01", [(CC, """            if not has_found_match and profiler.data_type_ratio == 1.0:
                profile.update(""", """            if profiler.data_type_ratio == 1.0:
                profile.update(""")])
r01_cat_top = ("R01", [(C, """                sorted(self._categories.items(), key=itemgetter(1), reverse=True)[
                    : self._top_k_categories
                ]
""", """                list(self._categories.items())[: self._top_k_categories]
""")])
o01_none_options = ("O01", [(B, "            if options and not options.is_prop_enabled(prop):\n", "            if options and options.is_prop_enabled(prop) is None:\n")])
o01_enabled = ("O01", [(CC, "            if enabled_profiles is None or profiler.type in enabled_profiles:\n", "            if not enabled_profiles or profiler.type in enabled_profiles:\n")])
v01_stale = ("V01", [(V, """            self.validation_report[iter_key] = dict()
            df_series""", """            self.validation_report.setdefault(iter_key, dict())
            df_series""")])
v01_run_early = ("V01", [(V, "        self.config = config\n\n        df_type", "        self.config = config\n        self.validation_run = True\n\n        df_type")])
v01_or = ("V01", [(V, """                    self.validation_report[iter_key][sub_key] = [
                        idx for idx, val in temp_results.items() if val
                    ]
""", """                    self.validation_report[iter_key][sub_key] = [
                        idx for idx, val in enumerate(temp_results) if val
                    ]
""")])
f02_header = ("F02", [(CSV, '        self._checked_header: bool = "header" in options and self._header != "auto"\n', '        self._checked_header: bool = "header" in options\n')])
f02_header_opt = ("F02", [(CSV, "                and not (isinstance(value, int) and value > -1)\n", "                and not (isinstance(value, int) and value)\n")])
f01_omitted = ("F01", [(CSV, "            omitted_list = omitted + [quotechar]\n", "            omitted_list = omitted\n            omitted_list.append(quotechar)\n")])
l01_regex_late = ("L01", [(RX, """        self.set_label_mapping(label_mapping)
        self._validate_parameters(parameters)
        self._parameters = parameters
""", """        self.set_label_mapping(label_mapping)
        self._parameters = parameters
        self._validate_parameters(parameters)
""")])
l01_regex_copy = ("L01", [(RX, "        parameters = copy.deepcopy(parameters) if parameters else {}\n", "        parameters = parameters if parameters else {}\n")])
l01_regex_elif = ("L01", [(RX, """                                try:
                                    re.compile(value[key][i])
                                except re.error as e:
                                    errors.append(
                                        "`{}`, pattern {} was not a valid regex"
                                        " pattern: {}".format(key, i, str(e))
                                    )
""", """                                re.compile(value[key][i])
""")])
l03_regex_trim = ("L03", [(RX, "        if len(predictions) > i + 1:\n            del predictions[i + 1 :]\n", "        if len(predictions) > 100:\n            del predictions[i + 1 :]\n")])
l03_regex_default = ("L03", [(RX, "                        pred[indices[0] : indices[1], default_ind] = 0\n                        pred[indices[0] : indices[1], entity_id] = 1\n", "                        pred[indices[0] : indices[1], entity_id] = 1\n                        pred[indices[0] : indices[1], default_ind] = 0\n")])
l03_regex_mut = ("L03", [(RX, "        pre_compiled_patterns = copy.deepcopy(regex_patterns)\n", "        pre_compiled_patterns = copy.copy(regex_patterns)\n")])
l03_regex_conf = ("L03", [(RX, """            conf = copy.deepcopy(predictions)
            for i""", """            conf = predictions
            for i""")])
