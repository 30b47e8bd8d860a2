OPT = "profilers/profiler_options.py"
UT = "profilers/unstructured_text_profile.py"
BDL = "labelers/base_data_labeler.py"
NUM = "profilers/numerical_column_stats.py"
o03_preset_const = ("O03", [(OPT, '''        self.set({"*.float.is_numeric_stats_enabled": False})
''', '''        self.set({"*.float.is_numeric_stats_enabled": True})
''')])
u02_case = ("U02", [(UT, '''        if not self._is_case_sensitive:
            words = ((get_word, dict_key''' if False else '''if not self._is_case_sensitive:''', '''if self._is_case_sensitive:''')])
l03_fit_map = ("L03", [(BDL, '''                    labels=train_data_y,
                    label_mapping=self.label_mapping,
''', '''                    labels=train_data_y,
''')])
u05_bins = ("U05", [(NUM, '''            self.histogram_methods[bin_method]["suggested_bin_count"] = 1
''', '''            pass
''')])
