"""second wave: order, label column, labelers"""
OC = "profilers/order_column_profile.py"
DL = "profilers/data_labeler_column_profile.py"
BD = "labelers/base_data_labeler.py"
BM = "labelers/base_model.py"
DP = "labelers/data_processing.py"

m02_ord_env = ("M02", [(OC, """            elif piecewise2 and other_envelopes_self:
                order = order1
""", """            elif piecewise2 and self_envelopes_other:
                order = order1
""")])
m02_ord_str = ("M02", [(OC, "        if data_store_type1 is str or data_store_type2 is str:\n", "        if data_store_type1 is str and data_store_type2 is str:\n")])
m02_ord_last = ("M02", [(OC, """            first_value = max(first_value1, first_value2)
            last_value = min(last_value1, last_value2)
""", """            first_value = max(first_value1, first_value2)
            last_value = min(first_value1, last_value2)
""")])
m02_ord_rand = ("M02", [(OC, """            last_value = max(first_value1, first_value2, last_value1, last_value2)
""", """            last_value = max(last_value1, last_value2)
""")])
m02_ord_const = ("M02", [(OC, """            if order1 == "constant value" and piecewise2:  # order2 ascend/descend
                order = order2
            elif order2 == "constant value" and piecewise1:  # order1 ascend/descend
""", """            if order1 == "constant value" and piecewise1:  # order2 ascend/descend
                order = order2
            elif order2 == "constant value" and piecewise2:  # order1 ascend/descend
""")])
m02_ord_piece = ("M02", [(OC, """            order == "constant value" and first_value == last_value
        ) or order == "random":
""", """            order == "constant value"
        ) or order == "random":
""")])
m02_ord_inter = ("M02", [(OC, "            or (low_value1 == low_value2 and high_value1 == high_value2)\n", "")])
m02_ord_envel = ("M02", [(OC, "        if low_value1 < low_value2 and high_value1 > high_value2:\n", "        if low_value1 <= low_value2 and high_value1 >= high_value2:\n")])
m02_ord_type = ("M02", [(OC, "            return order2, first_value2, last_value2, piecewise2, data_store_type2\n", "            return order2, first_value2, last_value2, piecewise2, data_store_type1\n")])
m05_dlc_labels = ("M05", [(DL, "        if data_labeler.possible_data_labels != data_labeler2.possible_data_labels:\n", "        if set(data_labeler.possible_data_labels) != set(\n            data_labeler2.possible_data_labels\n        ):\n")])
m05_dlc_skip = ("M05", [(DL, "        if data_labeler._top_k_labels != data_labeler2._top_k_labels:\n", "        if data_labeler._top_k_labels < data_labeler2._top_k_labels:\n")])
m02_dlc_keys = ("M02", [(DL, "                for key in set(self.rank_distribution) | set(other.rank_distribution)\n", "                for key in set(self.rank_distribution) & set(other.rank_distribution)\n")])
m02_dlc_votes = ("M02", [(DL, "        merged_profile._top_k_labels = self._top_k_labels\n", "")])
m02_dlc_if = ("M02", [(DL, "        if self.sample_size or other.sample_size:\n", "        if self.sample_size and other.sample_size:\n")])
u05_dlc_order = ("U05", [(DL, """                for _, x in sorted(
                    zip(self.reverse_label_mapping.keys(), self._possible_data_labels)
                )
""", """                for _, x in zip(
                    self.reverse_label_mapping.keys(), self._possible_data_labels
                )
""")])
u05_dlc_label = ("U05", [(DL, "top_k_probabilities - top_k_probabilities[0] >= -self._min_prob_differential", "top_k_probabilities - top_k_probabilities[0] > -self._min_prob_differential")])
u05_dlc_top = ("U05", [(DL, "        )[: self._top_k_labels]\n        top_k_prob", "        )[: self._top_k_voting]\n        top_k_prob")])
u05_dlc_zero = ("U05", [(DL, "            if self.data_labeler.model.requires_zero_mapping:\n                num_labels -= 1\n", "")])
u05_dlc_avg = ("U05", [(DL, "        avg_predictions = self.sum_predictions / self.sample_size\n", "        avg_predictions = self.sum_predictions / max(1, self.sum_predictions.sum())\n")])
s02_dlc_keys = ("S02", [(DL, """                int(k): v for k, v in profile._reverse_label_mapping.items()
""", """                k: v for k, v in profile._reverse_label_mapping.items()
""")])
d01_dlc = ("D01", [(DL, "        other_label_rep = other_profile.label_representation\n", "        other_label_rep = other_profile.avg_predictions\n")])
d01_dlc_none = ("D01", [(DL, "        if other_profile.sample_size:\n            other_labels", "        if self.sample_size:\n            other_labels")])
l04_eq = ("L04", [(BD, "            or self._postprocessor != other.postprocessor\n", "")])
l04_eq_model = ("L04", [(BM, "            or self._label_mapping != other._label_mapping\n", "            or self.labels != other.labels\n")])
l03_reshape = ("L03", [(BD, "            return np.reshape(data, -1)\n", "            return np.ravel(data, order='F')\n")])
l03_conf = ("L03", [(BD, """            show_confidences=predict_options.get("show_confidences", False),
""", """            show_confidences="show_confidences" in predict_options,
""")])
l03_post = ("L03", [(BD, "        results = self._postprocessor.process(data, results, self.label_mapping)\n", "        results = self._postprocessor.process(samples, results, self.label_mapping)\n")])
l03_check = ("L03", [(BD, "                if key in param_dict2 and param_dict1[key] != param_dict2[key]:\n", "                if param_dict2.get(key) and param_dict1[key] != param_dict2[key]:\n")])
l03_shuffle = ("L03", [(BD, "                train_data_x = x[shuffle_inds]\n                train_data_y = y[shuffle_inds]\n", "                train_data_x = x[shuffle_inds]\n                train_data_y = y[:cv_split_index]\n")])
l03_cv = ("L03", [(BD, "shuffle_inds = np.random.permutation(cv_split_index)", "shuffle_inds = np.random.permutation(num_samples)")])
l03_split = ("L03", [(BD, "        cv_split_index = max(1, int(num_samples * (1 - validation_split)))\n", "        cv_split_index = int(num_samples * (1 - validation_split))\n")])
l04_setp = ("L04", [(BD, "        if self._postprocessor and \"postprocessor\" in params:\n            self._postprocessor.set_params(**params[\"postprocessor\"])\n", "        elif self._postprocessor and \"postprocessor\" in params:\n            self._postprocessor.set_params(**params[\"postprocessor\"])\n")])
l02_load_pre = ("L02", [(BD, """            if param_processor_class != processor_class.__class__.__name__:
                raise ValueError(
                    "The load_options preprocessor class does not "
""", """            if param_processor_class is None:
                raise ValueError(
                    "The load_options preprocessor class does not "
""")])
l02_comp = ("L02", [(BD, """        data_labeler = type("CustomDataLabeler", (BaseDataLabeler,), {})()
        data_labeler.set_preprocessor(preprocessor)
        data_labeler.set_model(model)
        data_labeler.set_postprocessor(postprocessor)
""", """        data_labeler = type("CustomDataLabeler", (BaseDataLabeler,), {})()
        data_labeler.set_preprocessor(preprocessor)
        data_labeler.set_model(model)
        data_labeler._postprocessor = postprocessor
""")])
l02_loc = ("L02", [(BD, "        labeler._default_model_loc = name\n", "        labeler._default_model_loc = name.lower()\n")])
l04_map_alias = ("L04", [(BM, "        self._label_mapping = copy.deepcopy(label_mapping)\n", "        self._label_mapping = label_mapping\n")])
l04_map_ret = ("L01", [(BM, "            return copy.deepcopy(self._label_mapping)\n        return {}", "            return self._label_mapping\n        return {}")])
l04_numlab = ("L04", [(BM, "        return max(self.label_mapping.values()) + 1\n", "        return len(self.label_mapping) + 1\n")])
l04_start = ("L04", [(BM, "        return dict(zip(labels, list(range(start_index, start_index + len(labels)))))\n", "        return dict(zip(sorted(labels), range(start_index, start_index + len(labels))))\n")])
l04_same = ("L04", [(BM, "        max_label_ind = max(self._label_mapping.values())\n", "        max_label_ind = len(self._label_mapping) - 1\n")])
l01_get = ("L01", [(BM, "        return copy.deepcopy(param_dict)\n", "        return param_dict\n")])
l01_setp = ("L01", [(BM, "        self._validate_parameters(kwargs)\n\n        for param in kwargs:\n            self._parameters[param] = kwargs[param]\n", "        self._parameters.update(kwargs)\n        self._validate_parameters(self._parameters)\n")])
l01_enc = ("L01", [(DP, "                    if all(are_dict_keys_str) or all(are_dict_values_int):\n", "                    if all(are_dict_keys_str):\n")])
l01_pct = ("L01", [(DP, "                or value < 0\n                or value > 1\n                or math.isnan(value)\n            ):\n                errors.append(\n                    \"`word_level_min_percent`", "                or value < 0\n                or value >= 1\n                or math.isnan(value)\n            ):\n                errors.append(\n                    \"`word_level_min_percent`")])
l01_of = ("L01", [(DP, "                or value.lower() not in [\"character_argmax\", \"ner\"]\n            ):\n                errors.append(\n                    \"`output_format` must be a str of value \"\n                    \"`character_argmax` or `ner`\"\n", "                or value not in [\"character_argmax\", \"ner\"]\n            ):\n                errors.append(\n                    \"`output_format` must be a str of value \"\n                    \"`character_argmax` or `ner`\"\n")])
l03_pad = ("L03", [(DP, "                    pad_len = max(\n                        max_length - separate_ind + buffer_ind, max_length - sample_len\n                    )\n", "                    pad_len = max_length - separate_ind + buffer_ind\n")])
l03_flat_len = ("L03", [(DP, "                            flattened_sample_len += len(flattened_sample[-1])\n", "                            flattened_sample_len += len(sample_buffer)\n")])
l03_flat_reset = ("L03", [(DP, "                        flattened_sample_len = 0\n                        flattened_sample = []\n                        flattened_entities = []\n", "                        flattened_sample_len = 0\n                        flattened_sample = []\n")])
l03_flat_left = ("L03", [(DP, "                flattened_entities.extend([label_mapping[pad_label]] * pad_len)\n                batch_data[\"labels\"].append(flattened_entities)\n            flatten_count += 1\n", "                flattened_entities.extend([label_mapping[default_label]] * pad_len)\n                batch_data[\"labels\"].append(flattened_entities)\n            flatten_count += 1\n")])
l03_enc_def = ("L03", [(DP, "                    encoding_map.get(c, 0)\n", "                    encoding_map.get(c.lower(), 0)\n")])
l03_argmax = ("L03", [(DP, "                            label_ratio >= word_level_min_percent\n                            and label_count[label] > dominate_label_count\n", "                            label_ratio >= word_level_min_percent\n                            and label_count[label] >= dominate_label_count\n")])
l03_argmax_reset = ("L03", [(DP, "                    start_idx = idx + 1\n                    label_count = {background_label: 0}\n", "                    start_idx = idx + 1\n                    label_count = {dominate_label: 0}\n")])
l03_argmax_rng = ("L03", [(DP, "                    for i in range(start_idx, idx):\n                        entities_in_sample[i] = dominate_label\n", "                    for i in range(start_idx, idx + 1):\n                        entities_in_sample[i] = dominate_label\n")])
l03_ner_pad = ("L03", [(DP, "                        begin_idx = (\n                            -1 if curr_label in [pad_ind, default_ind] else curr_idx\n                        )\n", "                        begin_idx = -1 if curr_label == default_ind else curr_idx\n")])
l03_ner_end = ("L03", [(DP, "                    (begin_idx, curr_idx + 1, reverse_label_mapping[(int(curr_label))])\n", "                    (begin_idx, curr_idx, reverse_label_mapping[(int(curr_label))])\n")])
l03_match_sep = ("L03", [(DP, "                    (curr_buffer_add_in - result_ind) > separator_len\n                ):\n", "                    (curr_buffer_add_in - result_ind) >= separator_len\n                ):\n")])
l03_match_conf = ("L03", [(DP, "                results[\"conf\"][data_ind] = conf_buffer[\n                    result_ind : result_ind + data_lens[data_ind]\n                ]\n", "                results[\"conf\"][data_ind] = conf_buffer[\n                    data_ind : data_ind + data_lens[data_ind]\n                ]\n")])
l03_match_copy = ("L03", [(DP, "        results = self.match_sentence_lengths(data, dict(results), flatten_separator)\n\n        if use_word", "        results = self.match_sentence_lengths(data, results, flatten_separator)\n\n        if use_word")])
